----------------------------- MODULE UnitsTrace -----------------------------
(* Histories of operations on rational constants, scaling factors and units. *)
(* Registers hold exact values; every record names its operands by register, *)
(* and carries what the code shows of the result.                            *)
EXTENDS Units, TraceCommon
VARIABLES l, reg, sym,
          even    \* of each register: whether built with an even root (e), its kind (k), name (n), whether that is a symbol (y)
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
\* ---- the documented units
U(i) == Base(i)
m == U(1)  s == U(2)  kg == U(3)  K == U(4)  A == U(5)  mol == U(6)  cd == U(7)
N2(n) == Num(<<n, 1>>)
Sq(x) == Mul(x, x)
h == Mul(N2(3600), s)
day == Mul(N2(86400), s)
yr == Mul(N2(365), day)
g == Div(kg, N2(1000))
N == Div(Mul(kg, m), Sq(s))
Pa == Div(N, Sq(m))
J == Mul(N, m)
W == Div(J, s)
C == Mul(A, s)
V == Div(J, C)
T == Div(N, Mul(A, m))
F == Div(C, V)
Wb == Mul(V, s)
H == Div(Wb, A)
Sv == Div(J, kg)
Table == { <<<<109>>, m>>, <<<<115>>, s>>, <<<<107, 103>>, kg>>, <<<<75>>, K>>, <<<<65>>, A>>, <<<<109, 111, 108>>, mol>>, <<<<99, 100>>, cd>>,
  <<<<49>>, One>>, <<<<104>>, h>>, <<<<100, 97, 121>>, day>>, <<<<121, 114>>, yr>>, <<<<103>>, g>>, <<<<78>>, N>>, <<<<80, 97>>, Pa>>,
  <<<<98, 97, 114>>, Mul(N2(100000), Pa)>>, <<<<97, 116, 109>>, Mul(N2(101325), Pa)>>, <<<<74>>, J>>, <<<<87>>, W>>, <<<<67>>, C>>, <<<<86>>, V>>,
  <<<<84>>, T>>, <<<<70>>, F>>, <<<<87, 98>>, Wb>>, <<<<72>>, H>>, <<<<83, 118>>, Sv>>, <<<<72, 122>>, Inv(s)>>,
  <<<<114, 97, 100>>, One>>, <<<<115, 114>>, One>>, <<<<100, 121, 110>>, Div(N, N2(100000))>>, <<<<114, 101, 109>>, Div(Sv, N2(100))>> }

\* what the code shows of value v
Shows(v) ==
  /\ ~R.err
  /\ v \in Expr(R.name, sym')
  /\ (R.kind = "sf" => v \in Expr(R.repr, sym'))
  /\ (R.kind = "u" => /\ v \in SI(R.si, Table)
                      /\ R.dimless = Dimless(v) /\ R.scaled = Scaled(v)
                      /\ R.hassym = ~\E i \in DOMAIN R.name : R.name[i] \in {40, 41, 42, 47, 94, 32})
  \* equality with every earlier register (2: not compared)
  /\ \A i \in DOMAIN R.eq : R.eq[i] = 2 \/ R.eq[i] = (IF reg[i] = v THEN 1 ELSE 0)
Put(v) == reg' = Append(reg, v) /\ Shows(v)
\* negative even roots cannot be represented.  A value built with an even root
\* is written as one, also where it is a perfect square.
NegRoot(v) == v.s < 0 /\ \E i \in 1..NP : v.p[i][2] % 2 = 0
NegEven(v) == v.s < 0 /\ \E k \in {R.i, R.j} : even[k].e /\ reg[k].s > 0 /\ reg[k].p # Z(NP)
Even(b) == even' = IF Len(reg') > Len(reg) THEN Append(even, [e |-> b, k |-> R.kind, n |-> R.name, y |-> R.kind = "u" /\ R.hassym]) ELSE even
\* a decimal prefix times a symbol is written as the prefixed symbol
Letters == {<<-9, 110>>, <<-6, 117>>, <<-3, 109>>, <<-2, 99>>, <<2, 104>>, <<3, 107>>, <<6, 77>>, <<9, 71>>}
Prefixed(i, j) == \A x \in Letters : (even[i].k # "u" /\ reg[i] = Ten(x[1]) /\ even[j].y) => R.name = <<x[2]>> \o even[j].n
Init == l = 1 /\ reg = <<>> /\ sym = Table /\ even = <<>>
Keep == UNCHANGED sym
Next ==
  \/ Is("New") /\ reg' = <<>> /\ sym' = Table /\ even' = <<>>
  \/ Is("Const") /\ Keep /\ (\E e \in Table : e[1] = R.name /\ Put(e[2])) /\ Even(FALSE)
  \/ Is("Q") /\ Keep /\ Put(Num(Red(R.n, R.d))) /\ Even(FALSE)
  \/ Is("SF") /\ Keep /\ (LET b == Num(Red(R.n, R.d)) e == Red(R.en, R.ed) IN (IF Root(b, e) THEN Put(Pow(b, e)) ELSE R.err /\ UNCHANGED reg) /\ Even(e[2] % 2 = 0))
  \/ Is("Prefix") /\ Keep /\ Put(Ten(R.k)) /\ Even(FALSE)
  \/ Is("Unit") /\ (LET v == [Num(<<R.n, R.d>>) EXCEPT !.u = [i \in 1..NB |-> Red(R.exps[i][1], R.exps[i][2])]]
                     IN sym' = sym \cup {<<R.as, v>>} /\ R.name = R.as /\ Put(v)) /\ Even(FALSE)
  \/ Is("Conv") /\ Keep /\ Put(reg[R.i]) /\ Even(even[R.i].e)
  \/ Is("Mul") /\ Keep /\ (LET v == Mul(reg[R.i], reg[R.j]) IN IF R.err THEN (NegRoot(v) \/ NegEven(v)) /\ UNCHANGED reg ELSE Put(v) /\ Prefixed(R.i, R.j) /\ Prefixed(R.j, R.i)) /\ Even(even[R.i].e \/ even[R.j].e)
  \/ Is("Div") /\ Keep /\ (LET v == Div(reg[R.i], reg[R.j]) IN IF R.err THEN (NegRoot(v) \/ NegEven(v)) /\ UNCHANGED reg ELSE Put(v)) /\ Even(even[R.i].e \/ even[R.j].e)
  \/ Is("Pow") /\ Keep /\ (LET q == Red(R.n, R.d) IN (IF Root(reg[R.i], q) THEN Put(Pow(reg[R.i], q)) ELSE R.err /\ UNCHANGED reg) /\ Even(even[R.i].e \/ q[2] % 2 = 0))
  \/ Is("Rename") /\ sym' = sym \cup {<<R.as, reg[R.i]>>} /\ R.name = R.as /\ Put(reg[R.i]) /\ Even(even[R.i].e)
  \/ Is("Invalid") /\ Keep /\ UNCHANGED <<reg, even>> /\ R.self /\ \A i \in DOMAIN R.eq : R.eq[i] \in {0, 2}
  \/ Is("Zero") /\ Keep /\ UNCHANGED <<reg, even>> /\ R.err = (R.en = 0)       \* 0^0
  \/ Is("ZeroEq") /\ Keep /\ UNCHANGED <<reg, even>> /\ (\A i \in DOMAIN R.eq : R.eq[i] = 1) /\ (\A i \in DOMAIN R.ne : R.ne[i] = 1) /\ R.name = <<48>>
Spec == Init /\ [][Next]_<<l, reg, sym, even>>
=============================================================================
