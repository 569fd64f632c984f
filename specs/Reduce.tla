------------------------------- MODULE Reduce -------------------------------
(* Sums over the entries begin..end-1 (from 0) of a sequence.  Sums of words *)
(* are concatenations, so a word tells which entries were added, in which    *)
(* order.  Float sums round to 24 binary digits, ties to even.               *)
EXTENDS Integers, Sequences, FiniteSets
SE == INSTANCE SequencesExt
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Ulp(_, _)
Ulp(x, u) == IF x < 16777216 * u THEN u ELSE Ulp(x, 2 * u)
RoundPos(x) == LET u == Ulp(x, 1)  q == x \div u  r == x % u  up == 2 * r > u \/ (2 * r = u /\ q % 2 = 1) IN (IF up THEN q + 1 ELSE q) * u
Round(x) == IF x < 0 THEN 0 - RoundPos(0 - x) ELSE RoundPos(x)
Plus(t, a, b) == IF t = "f" THEN Round(a + b) ELSE a + b
Sum(t, s, b, e) == SE!FoldLeft(LAMBDA x, y : Plus(t, x, y), 0, SubSeq(s, b + 1, e))
Run(b, e) == [k \in 1..(e - b) |-> b + k - 1]
Perms(w, b, e) == Len(w) = e - b /\ {w[k] : k \in DOMAIN w} = b..(e - 1)
(* the packs of length n that hold entries between b and e *)
Packs(n, b, e) == (b \div n)..(((e + n - 1) \div n) - 1)
=============================================================================
