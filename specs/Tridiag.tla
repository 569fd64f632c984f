------------------------------ MODULE Tridiag ------------------------------
(* Tridiagonal systems over the integers (p = 0) or over the field of p      *)
(* elements.  A system is m = [l, d, u], sequences of the same length; l[1]  *)
(* and u[n] mean nothing.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
Red(p, x) == IF p = 0 THEN x ELSE x % p
RowTimes(p, m, x, i) == LET n == Len(m.d) IN
  Red(p, Red(p, m.d[i] * x[i]) + (IF i > 1 THEN Red(p, m.l[i] * x[i - 1]) ELSE 0) + (IF i < n THEN Red(p, m.u[i] * x[i + 1]) ELSE 0))
Solves(p, m, x, b) == Len(x) = Len(m.d) /\ Len(b) = Len(x) /\ \A i \in DOMAIN x : RowTimes(p, m, x, i) = Red(p, b[i])
(* accesses of the threads between two barriers: no entry is written by one and touched by another *)
Elems(s) == {s[k] : k \in DOMAIN s}
RaceFree(ph) == \A a, b \in DOMAIN ph : a # b => Elems(ph[a].w) \cap (Elems(ph[b].r) \cup Elems(ph[b].w)) = {}
=============================================================================
