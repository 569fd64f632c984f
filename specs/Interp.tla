------------------------------ MODULE Interp ------------------------------
(* Piecewise linear interpolation of (x[k],y[k]), with the first and last    *)
(* piece extended.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
Increasing(x) == \A k \in 1..(Len(x) - 1) : x[k] < x[k + 1]
\* the piece that t is on: the last one that starts at or before t, if any
Piece(x, t) == LET s == {k \in 1..(Len(x) - 1) : x[k] <= t} IN IF s = {} THEN 1 ELSE CHOOSE k \in s : \A j \in s : j <= k
\* v is the value at t; x and t are in the same unit, and so are y and v
At(x, y, t, v) == Abs(v) < 20000000 /\ LET k == Piece(x, t) IN (v - y[k]) * (x[k + 1] - x[k]) = (y[k + 1] - y[k]) * (t - x[k])
\* within e, where v and e are in units that are q times smaller
Near(x, y, t, v, q, e) == Abs(v) < 20000000 /\ LET k == Piece(x, t) IN Abs((v - q * y[k]) * (x[k + 1] - x[k]) - q * (y[k + 1] - y[k]) * (t - x[k])) <= e * (x[k + 1] - x[k])
Packs(n, k) == (k + n - 1) \div n
=============================================================================
