------------------------------- MODULE Units --------------------------------
(* Scaling factors and units as power products (C14): a value is a sign and  *)
(* rational exponents, one per prime of the scaling and one per SI base      *)
(* unit.  Names: the grammar of names, and the values a name may denote.     *)
EXTENDS Rat, FiniteSets
Primes == <<2, 3, 5, 7, 73, 193>>
NP == Len(Primes)
NB == 7                       \* m s kg K A mol cd
Z(n) == [i \in 1..n |-> QZero]
One == [s |-> 1, p |-> Z(NP), u |-> Z(NB)]
Base(i) == [One EXCEPT !.u[i] = QOne]
RECURSIVE Val(_, _)
Val(n, p) == IF n % p = 0 THEN 1 + Val(n \div p, p) ELSE 0
\* a non-zero rational whose prime factors are all in the table
RECURSIVE Strip2(_, _)
Strip2(n, i) == IF i > NP THEN n ELSE Strip2(n \div (LET RECURSIVE P(_) P(k) == IF k = 0 THEN 1 ELSE Primes[i] * P(k - 1) IN P(Val(n, Primes[i]))), i + 1)
Factors(n) == n > 0 /\ Strip2(n, 1) = 1
Num(q) == [One EXCEPT !.s = IF q[1] < 0 THEN -1 ELSE 1, !.p = [i \in 1..NP |-> <<Val(AbsI(q[1]), Primes[i]) - Val(q[2], Primes[i]), 1>>]]
Mul(x, y) == [s |-> x.s * y.s, p |-> [i \in 1..NP |-> QAdd(x.p[i], y.p[i])], u |-> [i \in 1..NB |-> QAdd(x.u[i], y.u[i])]]
\* real powers; an even root of a negative number does not exist
Root(x, q) == x.s > 0 \/ q[2] % 2 = 1
Pow(x, q) == [s |-> IF q[1] % 2 = 0 THEN 1 ELSE x.s, p |-> [i \in 1..NP |-> QMul(x.p[i], q)], u |-> [i \in 1..NB |-> QMul(x.u[i], q)]]
Inv(x) == Pow(x, <<-1, 1>>)
Div(x, y) == Mul(x, Inv(y))
Dimless(x) == x.u = Z(NB)
Scaled(x) == x.s # 1 \/ x.p # Z(NP)
Ten(k) == Pow(Num(<<10, 1>>), <<k, 1>>)

\* ---- names (character codes)
Prefixes == {<<110, -9>>, <<117, -6>>, <<109, -3>>, <<99, -2>>, <<104, 2>>, <<107, 3>>, <<77, 6>>, <<71, 9>>}   \* n u m c h k M G
IsDig(c) == c \in 48..57
RECURSIVE NatOf(_)
NatOf(t) == IF t = <<>> THEN 0 ELSE 10 * NatOf(SubSeq(t, 1, Len(t) - 1)) + t[Len(t)] - 48
Digits(t) == t # <<>> /\ (\A i \in DOMAIN t : IsDig(t[i])) /\ (Len(t) = 1 \/ t[1] # 48)   \* no leading zeros
SInt(t) == Digits(t) \/ (Len(t) > 1 /\ t[1] = 45 /\ Digits(Tail(t)))
IntOf(t) == IF t[1] = 45 THEN -NatOf(Tail(t)) ELSE NatOf(t)
\* numbers of any size: factors by long division of the digits (most significant first)
RECURSIVE LongRem(_, _, _)
LongRem(t, p, r) == IF t = <<>> THEN r ELSE LongRem(Tail(t), p, (10 * r + t[1]) % p)
RECURSIVE LongDiv(_, _, _)
LongDiv(t, p, r) == IF t = <<>> THEN <<>> ELSE LET v == 10 * r + t[1] IN <<v \div p>> \o LongDiv(Tail(t), p, v % p)
RECURSIVE Lead(_)
Lead(t) == IF t # <<>> /\ t[1] = 0 THEN Lead(Tail(t)) ELSE t
RECURSIVE BigVal(_, _)
BigVal(t, p) == IF LongRem(t, p, 0) = 0 THEN LET r == BigVal(Lead(LongDiv(t, p, 0)), p) IN <<r[1] + 1, r[2]>> ELSE <<0, t>>
RECURSIVE BigFac(_, _)
BigFac(t, i) == IF i > NP THEN <<<<>>, t>> ELSE LET v == BigVal(t, Primes[i]) r == BigFac(v[2], i + 1) IN <<<<v[1]>> \o r[1], r[2]>>
NumOf(t) == LET neg == t[1] = 45
                d == Lead([i \in 1..(Len(t) - (IF neg THEN 1 ELSE 0)) |-> t[i + (IF neg THEN 1 ELSE 0)] - 48])
            IN IF d = <<>> THEN {}
               ELSE LET f == BigFac(d, 1) IN
                    IF f[2] # <<1>> THEN {} ELSE {[One EXCEPT !.s = IF neg THEN -1 ELSE 1, !.p = [i \in 1..NP |-> <<f[1][i], 1>>]]}
\* values of a word: a symbol, a number, or a prefix letter before one
RECURSIVE Word(_, _)
Word(t, sym) == {e[2] : e \in {e \in sym : e[1] = t}}
    \cup (IF SInt(t) THEN NumOf(t) ELSE {})
    \cup UNION {LET rest == Word(Tail(t), sym) IN {Mul(Ten(p[2]), v) : v \in rest} : p \in {p \in Prefixes : Len(t) > 1 /\ t[1] = p[1]}}
\* the matching parenthesis of the one at position i
RECURSIVE Close(_, _, _)
Close(t, i, d) == IF i > Len(t) THEN 0
                  ELSE LET e == d + (IF t[i] = 40 THEN 1 ELSE IF t[i] = 41 THEN -1 ELSE 0) IN IF e = 0 THEN i ELSE Close(t, i + 1, e)
\* positions of characters of cs outside parentheses
RECURSIVE Outer(_, _, _, _)
Outer(t, cs, i, d) == IF i > Len(t) THEN {}
                      ELSE LET e == d + (IF t[i] = 40 THEN 1 ELSE IF t[i] = 41 THEN -1 ELSE 0)
                           IN (IF d = 0 /\ t[i] \in cs THEN {i} ELSE {}) \cup Outer(t, cs, i + 1, e)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Sub(t, a, b) == SubSeq(t, a, b)
\* exponent: integer, or (n/d) possibly in several parentheses
RECURSIVE ExpOf(_)
ExpOf(t) == IF t = <<>> THEN {}
            ELSE IF t[1] = 40 /\ Close(t, 1, 0) = Len(t) THEN ExpOf(Sub(t, 2, Len(t) - 1))
            ELSE IF SInt(t) THEN {<<IntOf(t), 1>>}
            ELSE LET s == {i \in DOMAIN t : t[i] = 47} IN
                 IF Cardinality(s) # 1 THEN {}
                 ELSE LET k == Max(s) n == Sub(t, 1, k - 1) d == Sub(t, k + 1, Len(t)) IN
                      IF SInt(n) /\ Digits(d) /\ NatOf(d) > 0 THEN {Red(IntOf(n), NatOf(d))} ELSE {}
\* values of an expression: products and quotients from the left, powers bind tighter
RECURSIVE Expr(_, _)
Expr(t, sym) ==
  LET md == Outer(t, {42, 47}, 1, 0)
      pw == Outer(t, {94}, 1, 0)
  IN IF t = <<>> THEN {}
     ELSE IF md # {} THEN LET k == Max(md) L == Expr(Sub(t, 1, k - 1), sym) RR == Expr(Sub(t, k + 1, Len(t)), sym)
                          IN {IF t[k] = 42 THEN Mul(x, y) ELSE Div(x, y) : x \in L, y \in RR}
     ELSE IF pw # {} THEN LET k == Min(pw) L == Expr(Sub(t, 1, k - 1), sym) E == ExpOf(Sub(t, k + 1, Len(t)))
                          IN {Pow(x, q) : x \in {x \in L : \A q \in E : Root(x, q)}, q \in E}
     ELSE IF t[1] = 40 /\ Close(t, 1, 0) = Len(t) THEN Expr(Sub(t, 2, Len(t) - 1), sym)
     ELSE Word(t, sym)
\* the SI string: factors separated by blanks, the scaling (if any) first
RECURSIVE SI(_, _)
SI(t, sym) == LET b == Outer(t, {32}, 1, 0)
              IN IF b = {} THEN Expr(t, sym)
                 ELSE LET k == Max(b) IN {Mul(x, y) : x \in SI(Sub(t, 1, k - 1), sym), y \in Expr(Sub(t, k + 1, Len(t)), sym)}
=============================================================================
