------------------------------- MODULE RatMC --------------------------------
(* Laws of the rationals and of decimal integers, over a bounded range.      *)
EXTENDS Rat
CONSTANTS M
VARIABLES p, q
Rats == {Red(n, d) : n \in (-M)..M, d \in 1..M}
Init == p \in Rats /\ q \in Rats
Next == UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_<<p, q>>
Laws == /\ IsRat(p) /\ IsRat(QAdd(p, q)) /\ IsRat(QMul(p, q))
        /\ QSub(QAdd(p, q), q) = p
        /\ (q # QZero => QMul(QDiv(p, q), q) = p)
        /\ QAdd(p, q) = QAdd(q, p) /\ QMul(p, q) = QMul(q, p)
        /\ \A r \in {<<1, 2>>, <<-2, 3>>, <<3, 1>>} : QMul(r, QAdd(p, q)) = QAdd(QMul(r, p), QMul(r, q)) /\ QAdd(QAdd(p, q), r) = QAdd(p, QAdd(q, r))
        /\ (p # QZero => \A k \in (-3)..3 : QMul(QPow(p, k), QPow(p, -k)) = QOne)
\* decimal integers agree with TLC's
RECURSIVE D2(_)
D2(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o D2(n \div 10)
B(n) == [s |-> IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0, d |-> D2(AbsI(n))]
BigLaws == LET a == 37 * p[1] + q[2] * 13 - 40 b == 101 * q[1] - 9 * p[2] + 3 IN
            BAdd(B(a), B(b)) = B(a + b) /\ BMul(B(a), B(b)) = B(a * b) /\ BSub(B(a), B(b)) = B(a - b)
=============================================================================
