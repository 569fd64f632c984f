--------------------------------- MODULE Rat ---------------------------------
(* Exact rationals <<n, d>>, in lowest terms with d > 0; and integers of any *)
(* size as decimal digits, for values that leave TLC's 32 bits.              *)
EXTENDS Integers, Sequences
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
Red(n, d) == LET g == Gcd(AbsI(n), AbsI(d)) s == IF d < 0 THEN -1 ELSE 1 IN <<(s * n) \div g, (s * d) \div g>>
IsRat(q) == q[2] > 0 /\ Gcd(AbsI(q[1]), q[2]) = 1
QAdd(p, q) == Red(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
QSub(p, q) == Red(p[1] * q[2] - q[1] * p[2], p[2] * q[2])
QMul(p, q) == Red(p[1] * q[1], p[2] * q[2])
QDiv(p, q) == Red(p[1] * q[2], p[2] * q[1])
QNeg(p) == <<-p[1], p[2]>>
QEq(p, q) == p[1] * q[2] = q[1] * p[2]
QZero == <<0, 1>>
QOne == <<1, 1>>
RECURSIVE QPow(_, _)
QPow(p, k) == IF k = 0 THEN QOne ELSE IF k < 0 THEN QPow(QDiv(QOne, p), -k) ELSE QMul(p, QPow(p, k - 1))

\* ---- decimal text of an integer (character codes) <-> sign and digits, least first
RECURSIVE Rev(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Append(Rev(Tail(q)), Head(q))
RECURSIVE Norm(_)
Norm(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Norm(SubSeq(d, 1, Len(d) - 1)) ELSE d
BigOf(txt) == LET neg == txt[1] = 45
                  t == IF neg THEN Tail(txt) ELSE txt
                  d == Norm(Rev([i \in DOMAIN t |-> t[i] - 48]))
              IN [s |-> IF d = <<>> THEN 0 ELSE IF neg THEN -1 ELSE 1, d |-> d]
Dig(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
MaxL(a, b) == IF a > b THEN a ELSE b
RECURSIVE Carry(_, _)
Carry(d, c) == IF d = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 10>> \o Carry(<<>>, c \div 10))
               ELSE <<(d[1] + c) % 10>> \o Carry(Tail(d), (d[1] + c) \div 10)
MagAdd(a, b) == Norm(Carry([i \in 1..MaxL(Len(a), Len(b)) |-> Dig(a, i) + Dig(b, i)], 0))
RECURSIVE SumTo(_, _, _, _)
SumTo(a, b, k, i) == IF i > k THEN 0 ELSE Dig(a, i) * Dig(b, k + 1 - i) + SumTo(a, b, k, i + 1)
MagMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Norm(Carry([k \in 1..Len(a) + Len(b) |-> SumTo(a, b, k, 1)], 0))
RECURSIVE MagLess(_, _)
MagLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                 ELSE IF a = <<>> THEN FALSE
                 ELSE IF a[Len(a)] # b[Len(b)] THEN a[Len(a)] < b[Len(b)]
                 ELSE MagLess(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))
RECURSIVE Borrow(_, _)
Borrow(d, c) == IF d = <<>> THEN <<>> ELSE LET v == d[1] - c IN <<IF v < 0 THEN v + 10 ELSE v>> \o Borrow(Tail(d), IF v < 0 THEN 1 ELSE 0)
MagSub(a, b) == Norm(Borrow([i \in DOMAIN a |-> a[i] - Dig(b, i) + 0], 0))    \* a >= b; digits may be negative before borrowing
Big0 == [s |-> 0, d |-> <<>>]
BNeg(a) == [a EXCEPT !.s = -@]
BAdd(a, b) == IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
              ELSE IF a.s = b.s THEN [s |-> a.s, d |-> MagAdd(a.d, b.d)]
              ELSE IF a.d = b.d THEN Big0
              ELSE IF MagLess(b.d, a.d) THEN [s |-> a.s, d |-> MagSub(a.d, b.d)]
              ELSE [s |-> b.s, d |-> MagSub(b.d, a.d)]
BMul(a, b) == IF a.s = 0 \/ b.s = 0 THEN Big0 ELSE [s |-> a.s * b.s, d |-> MagMul(a.d, b.d)]
BSub(a, b) == BAdd(a, BNeg(b))
RECURSIVE BPow(_, _)
BPow(a, k) == IF k = 0 THEN [s |-> 1, d |-> <<1>>] ELSE BMul(a, BPow(a, k - 1))
=============================================================================
