-------------------------------- MODULE Pack --------------------------------
(* Packs and masks: n lanes, every operation acts lane by lane as on         *)
(* scalars.  Values are rationals k/Q, kept as the integer k; the only       *)
(* other value is Nan.  Types: "i" (int), "f" (float), "d" (double); the     *)
(* inputs used are such that no floating point operation rounds.             *)
EXTENDS Integers, Sequences, FiniteSets
Q == 16
Nan == 99999999
Wide(s, t) == IF "d" \in {s, t} THEN "d" ELSE IF "f" \in {s, t} THEN "f" ELSE "i"
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
TruncDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
ToInt(x) == Q * TruncDiv(x, Q)
Conv(t, x) == IF t = "i" THEN ToInt(x) ELSE x
(* one scalar operation in type t *)
Op(o, t, x, y) ==
  IF x = Nan \/ y = Nan THEN Nan
  ELSE CASE o = "+" -> x + y [] o = "-" -> x - y
         [] o = "*" -> TruncDiv(x * y, Q)
         [] o = "/" -> IF t = "i" THEN Q * TruncDiv(x, y) ELSE TruncDiv(x * Q, y)
Neg(x) == IF x = Nan THEN Nan ELSE -x
Min(x, y) == IF y < x THEN y ELSE x
Max(x, y) == IF y > x THEN y ELSE x
Pick(o, x, y) == IF o = "min" THEN Min(x, y) ELSE Max(x, y)
Cmp(o, x, y) ==
  IF x = Nan \/ y = Nan THEN o = "!="
  ELSE CASE o = "==" -> x = y [] o = "!=" -> x # y [] o = "<" -> x < y
         [] o = ">" -> x > y [] o = "<=" -> x <= y [] o = ">=" -> x >= y
Logic(o, x, y) == IF o = "&&" THEN x /\ y ELSE x \/ y
(* x op= y, where x has type s and y type t: y alone for "=" *)
Assign(o, s, t, x, y) == IF o = "=" THEN Conv(s, y) ELSE Conv(s, Op(o, Wide(s, t), x, y))
All(n, x) == [i \in 1..n |-> x]
Lanes(n, F(_)) == [i \in 1..n |-> F(i)]
RECURSIVE SumTo(_, _), ExtTo(_, _, _, _, _)
SumTo(p, k) == IF k = 0 THEN 0 ELSE Op("+", "d", SumTo(p, k - 1), p[k])
Sum(p) == SumTo(p, Len(p))
(* the smallest or largest of init and the selected lanes *)
ExtTo(o, m, init, p, k) == IF k = 0 THEN init ELSE LET e == ExtTo(o, m, init, p, k - 1) IN IF m[k] THEN Pick(o, e, p[k]) ELSE e
Ext(o, m, init, p) == ExtTo(o, m, init, p, Len(p))
(* s op= p[1] op= ... over the selected lanes *)
RECURSIVE FoldTo(_, _, _, _, _, _, _)
FoldTo(o, ts, tp, m, s, p, k) == IF k = 0 THEN s ELSE LET e == FoldTo(o, ts, tp, m, s, p, k - 1) IN IF m[k] THEN Assign(o, ts, tp, e, p[k]) ELSE e
Fold(o, ts, tp, m, s, p) == FoldTo(o, ts, tp, m, s, p, Len(p))
ShiftRight(x, p) == [i \in 1..Len(p) |-> IF i = 1 THEN x ELSE p[i - 1]]
ShiftLeft(x, p) == [i \in 1..Len(p) |-> IF i = Len(p) THEN x ELSE p[i + 1]]
Range(n, x) == [i \in 1..n |-> x + Q * (i - 1)]
Sel(m, p, q) == [i \in 1..Len(p) |-> IF m[i] THEN p[i] ELSE q[i]]
(* y = beta*y + alpha*x, where y is not looked at if beta=0 *)
Update(ty, y, x, al, be) == Conv(ty, LET ax == Op("*", "d", al, x) IN IF be = 0 THEN ax ELSE Op("+", "d", Op("*", "d", be, y), ax))
MAny(m) == \E i \in DOMAIN m : m[i]
MAll(m) == \A i \in DOMAIN m : m[i]
Selected(m) == LET S[k \in 0..Len(m)] == IF k = 0 THEN <<>> ELSE IF m[k] THEN Append(S[k-1], k - 1) ELSE S[k-1] IN S[Len(m)]
Npack(n, k) == (k + n - 1) \div n
=============================================================================
