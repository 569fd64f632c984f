------------------------------ MODULE RatTrace ------------------------------
(* Every recorded rational-constant operation has the exact result (C13).   *)
(* Fields: a, b operands <<num, den>> as read back from the objects; r the   *)
(* result.  The Big records carry decimal text, and with each result the     *)
(* coefficients u, v of Bezout's identity u*num + v*den = 1, so that being   *)
(* in lowest terms is checked by multiplication.                             *)
EXTENDS Rat, TraceCommon
VARIABLES l
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Small(q) == IsRat(q)
Res(op, a, b) == CASE op = "+" -> QAdd(a, b) [] op = "-" -> QSub(a, b) [] op = "*" -> QMul(a, b) [] op = "/" -> QDiv(a, b)
\* results are required with their representation: lowest terms, den > 0
OpOK == LET a == R.a b == R.b
        IN /\ IsRat(a) /\ IsRat(b)
           /\ IF R.op = "/" /\ b[1] = 0 THEN R.err ELSE ~R.err /\ R.r = Res(R.op, a, b)
PowOK == IF R.a[1] = 0 /\ R.k <= 0 THEN R.err ELSE ~R.err /\ R.r = QPow(R.a, R.k)

BQ(q) == <<BigOf(q[1]), BigOf(q[2])>>
BOne == [s |-> 1, d |-> <<1>>]
\* big result r (with certificate) is the reduced form of n/d
BIs(r, n, d) == LET q == BQ(r) IN
  /\ q[2].s = 1
  /\ BMul(q[1], d) = BMul(n, q[2])
  /\ BAdd(BMul(BigOf(R.u), q[1]), BMul(BigOf(R.v), q[2])) = BOne
BigOK == LET a == BQ(R.a) b == BQ(R.b)
  IN CASE R.op = "make" -> IF b[1].s = 0 THEN R.err ELSE ~R.err /\ BIs(R.r, a[1], b[1])
       [] R.op = "+" -> ~R.err /\ BIs(R.r, BAdd(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
       [] R.op = "-" -> ~R.err /\ BIs(R.r, BSub(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
       [] R.op = "*" -> ~R.err /\ BIs(R.r, BMul(a[1], b[1]), BMul(a[2], b[2]))
       [] R.op = "/" -> IF b[1].s = 0 THEN R.err ELSE ~R.err /\ BIs(R.r, BMul(a[1], b[2]), BMul(a[2], b[1]))
       [] R.op = "neg" -> ~R.err /\ BIs(R.r, BNeg(a[1]), a[2])
       [] R.op = "pow" -> IF a[1].s = 0 /\ R.k <= 0 THEN R.err
                          ELSE ~R.err /\ (IF R.k >= 0 THEN BIs(R.r, BPow(a[1], R.k), BPow(a[2], R.k)) ELSE BIs(R.r, BPow(a[2], -R.k), BPow(a[1], -R.k)))
BEq(p, q) == BMul(p[1], q[2]) = BMul(q[1], p[2])

\* ---- printed forms
Pos(t, c) == {i \in DOMAIN t : t[i] = c}
Digits(t) == t # <<>> /\ (\A i \in DOMAIN t : t[i] \in 48..57) /\ (Len(t) = 1 \/ t[1] # 48)
IntText(t) == Digits(t) \/ (Len(t) > 1 /\ t[1] = 45 /\ Digits(Tail(t)))
RatText(t) == LET s == Pos(t, 47) IN
  IF s = {} THEN <<t, <<49>>>> ELSE LET k == CHOOSE i \in s : TRUE IN <<SubSeq(t, 1, k - 1), SubSeq(t, k + 1, Len(t))>>
StrOK == LET p == RatText(R.r) IN
  /\ ~R.err /\ IntText(p[1]) /\ Digits(p[2]) /\ BigOf(p[2]).s = 1
  /\ BEq(BQ(p), BQ(R.a))
\* a decimal: [m, e] denoting m * 10^e
DecOf(t) == LET x == {i \in DOMAIN t : t[i] = 101}
                man == IF x = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in x : TRUE) - 1)
                et == IF x = {} THEN <<48>> ELSE SubSeq(t, (CHOOSE i \in x : TRUE) + 1, Len(t))
                neg == et[1] = 45
                ed == IF et[1] \in {43, 45} THEN Tail(et) ELSE et
                RECURSIVE V(_)
                V(q) == IF q = <<>> THEN 0 ELSE 10 * V(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)] - 48
                dot == Pos(man, 46)
                k == IF dot = {} THEN Len(man) ELSE CHOOSE i \in dot : TRUE
            IN [m |-> BigOf(SubSeq(man, 1, k - (IF dot = {} THEN 0 ELSE 1)) \o SubSeq(man, k + 1, Len(man))),
                e |-> (IF neg THEN -V(ed) ELSE V(ed)) - (Len(man) - k)]
Ten == [s |-> 1, d |-> <<0, 1>>]
Abs1(x) == [x EXCEPT !.s = IF @ < 0 THEN 1 ELSE @]
BLe(x, y) == BSub(x, y).s <= 0
\* six significant digits
FloatOK == LET t == DecOf(R.r)
               q == BQ(R.a)
               up == IF t.e >= 0 THEN BPow(Ten, t.e) ELSE BOne
               dn == IF t.e < 0 THEN BPow(Ten, -t.e) ELSE BOne
               lhs == BMul(BMul(t.m, up), q[2])
               rhs == BMul(q[1], dn)
           IN ~R.err /\ BLe(BMul(Abs1(BSub(lhs, rhs)), BPow(Ten, 5)), Abs1(rhs))

Init == l = 1
Next ==
  \/ Is("Make") /\ (IF R.d = 0 THEN R.err ELSE ~R.err /\ R.r = Red(R.n, R.d))
  \/ Is("Op") /\ OpOK
  \/ Is("Neg") /\ ~R.err /\ R.r = QNeg(R.a)
  \/ Is("Pow") /\ PowOK
  \/ Is("Eq") /\ R.eq = QEq(R.a, R.b) /\ R.ne = ~QEq(R.a, R.b)
  \/ Is("Big") /\ BigOK
  \/ Is("BigEq") /\ R.eq = BEq(BQ(R.a), BQ(R.b)) /\ R.ne = ~R.eq
  \/ Is("Str") /\ StrOK
  \/ Is("Float") /\ FloatOK
Spec == Init /\ [][Next]_l
=============================================================================
