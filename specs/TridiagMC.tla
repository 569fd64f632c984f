----------------------------- MODULE TridiagMC -----------------------------
(* Thomas' algorithm and cyclic reduction over the field of P elements, one  *)
(* row at a time.  Within a level of the reduction the rows are taken in any *)
(* order (they belong to different threads); levels are apart by a barrier.  *)
EXTENDS Tridiag, TLC
CONSTANTS P, N
VARIABLES alg, m, b, l, d, u, x, os, todo, up
vars == <<alg, m, b, l, d, u, x, os, todo, up>>
F == 0..(P - 1)
Inv(a) == CHOOSE k \in 1..(P - 1) : (a * k) % P = 1
Mul(a, c) == (a * c) % P
Div(a, c) == Mul(a, Inv(c))
Neg(a) == (P - a) % P
\* determinants of all blocks of adjacent rows, the analogue of dominance
RECURSIVE Det(_, _, _)
Det(s, i, j) == IF j < i THEN 1 ELSE IF j = i THEN s.d[i] ELSE (s.d[j] * Det(s, i, j - 1) + P * P - Mul(Mul(s.l[j], s.u[j - 1]), Det(s, i, j - 2))) % P
Regular(s) == \A i \in 1..Len(s.d) : \A j \in i..Len(s.d) : Det(s, i, j) # 0
Sizes == 1..N
Systems(n) == {[l |-> ll, d |-> dd, u |-> uu] : ll \in {f \in [1..n -> F] : f[1] = 0}, dd \in [1..n -> F \ {0}], uu \in {f \in [1..n -> F] : f[n] = 0}}
Unit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
\* rows from 0 in the algorithms
D(i) == d[i + 1]
L(i) == l[i + 1]
U(i) == u[i + 1]
X(i) == x[i + 1]
Rows == 0..(Len(d) - 1)
Start(a, n) == IF a = "thomas" THEN 1..(n - 1) ELSE IF n > 2 THEN {i \in 0..(n - 1) : i % 2 = 0} ELSE {}
Init == /\ alg \in {"thomas", "cr"} /\ \E n \in Sizes : m \in {s \in Systems(n) : Regular(s)} /\ \E k \in 1..n : b = Unit(n, k)
        /\ l = m.l /\ d = m.d /\ u = m.u /\ x = b /\ os = 1 /\ todo = Start(alg, Len(m.d)) /\ up = "down"
Same == UNCHANGED <<alg, m, b>>
Least == CHOOSE i \in todo : \A j \in todo : i <= j
Greatest == CHOOSE i \in todo : \A j \in todo : i >= j
TDown == alg = "thomas" /\ up = "down" /\ todo # {} /\ LET i == Least  f == Div(L(i), D(i - 1)) IN
           /\ d' = [d EXCEPT ![i + 1] = (@ + Neg(Mul(f, U(i - 1)))) % P] /\ x' = [x EXCEPT ![i + 1] = (@ + Neg(Mul(f, X(i - 1)))) % P]
           /\ todo' = todo \ {i} /\ UNCHANGED <<l, u, os, up>> /\ Same
TTurn == alg = "thomas" /\ up = "down" /\ todo = {} /\ up' = "up" /\ x' = [x EXCEPT ![Len(d)] = Div(@, d[Len(d)])] /\ todo' = 0..(Len(d) - 2) /\ UNCHANGED <<l, d, u, os>> /\ Same
TUp == alg = "thomas" /\ up = "up" /\ todo # {} /\ LET i == Greatest IN x' = [x EXCEPT ![i + 1] = Div((@ + Neg(Mul(U(i), X(i + 1)))) % P, D(i))] /\ todo' = todo \ {i} /\ UNCHANGED <<l, d, u, os, up>> /\ Same
In(i) == i \in Rows
CDown == alg = "cr" /\ up = "down" /\ todo # {} /\ \E i \in todo :
           LET f1 == IF In(i - os) THEN Neg(Div(L(i), D(i - os))) ELSE 0
               f2 == IF In(i + os) THEN Neg(Div(U(i), D(i + os))) ELSE 0
               im == IF In(i - os) THEN i - os ELSE i
               ip == IF In(i + os) THEN i + os ELSE i IN
           /\ l' = [l EXCEPT ![i + 1] = Mul(f1, L(im))] /\ u' = [u EXCEPT ![i + 1] = Mul(f2, U(ip))]
           /\ d' = [d EXCEPT ![i + 1] = (@ + Mul(f1, U(im)) + Mul(f2, L(ip))) % P] /\ x' = [x EXCEPT ![i + 1] = (@ + Mul(f1, X(im)) + Mul(f2, X(ip))) % P]
           /\ todo' = todo \ {i} /\ UNCHANGED <<os, up>> /\ Same
CLevel == alg = "cr" /\ up = "down" /\ todo = {} /\ 2 * os < Len(d) /\ os' = 2 * os /\ todo' = (IF 4 * os < Len(d) THEN {i \in Rows : i % (4 * os) = 0} ELSE {}) /\ UNCHANGED <<l, d, u, x, up>> /\ Same
CBottom == alg = "cr" /\ up = "down" /\ todo = {} /\ 2 * os >= Len(d) /\ up' = "up" /\ os' = os \div 2 /\ UNCHANGED <<l, d, u>> /\ Same
           /\ x' = (IF os >= Len(d) THEN [x EXCEPT ![1] = Div(@, D(0))]
                   ELSE LET det == (Mul(D(0), D(os)) + Neg(Mul(U(0), L(os)))) % P IN
                        [x EXCEPT ![1] = Div((Mul(D(os), X(0)) + Neg(Mul(U(0), X(os)))) % P, det), ![os + 1] = Div((Mul(D(0), X(os)) + Neg(Mul(L(os), X(0)))) % P, det)])
           /\ todo' = IF os = 1 THEN {} ELSE {i \in Rows : i % os = os \div 2}
CUp == alg = "cr" /\ up = "up" /\ todo # {} /\ \E i \in todo :
           /\ x' = [x EXCEPT ![i + 1] = Div((@ + Neg(((IF In(i - os) THEN Mul(L(i), X(i - os)) ELSE 0) + (IF In(i + os) THEN Mul(U(i), X(i + os)) ELSE 0)) % P)) % P, D(i))]
           /\ todo' = todo \ {i} /\ UNCHANGED <<l, d, u, os, up>> /\ Same
CRise == alg = "cr" /\ up = "up" /\ todo = {} /\ os > 1 /\ os' = os \div 2 /\ todo' = {i \in Rows : i % os = os \div 2} /\ UNCHANGED <<l, d, u, x, up>> /\ Same
Next == TDown \/ TTurn \/ TUp \/ CDown \/ CLevel \/ CBottom \/ CUp \/ CRise
Spec == Init /\ [][Next]_vars
Done == up = "up" /\ todo = {} /\ (alg = "thomas" \/ os <= 1)
\* what is left solves the system; no pivot vanishes
Right == Done => Solves(P, m, x, b)
Pivots == alg = "cr" => \A i \in Rows : d[i + 1] # 0
\* after d is eliminated once more the answer does not change
Ends == []<>Done
=============================================================================
