----------------------------- MODULE InterpMC -----------------------------
(* A team sets up the interpolation of two columns and then uses it, with    *)
(* the packs of targets in any order; the search is the bisection that       *)
(* finds the first source point beyond a target.  Values are kept as the     *)
(* piece and end they are computed from.                                     *)
EXTENDS Interp, TLC
CONSTANTS W, K1, K2, N, C
VARIABLES x, tg, map, lo, cnt, cur, done, ph
vars == <<x, tg, map, lo, cnt, cur, done, ph>>
Sorted(s, n) == {f \in [1..n -> s] : Increasing(f)}
Grids == UNION {Sorted(0..W, n) : n \in 2..K1}
Targets == (-1)..(W + 1)
Cols == 1..C
NP == Packs(N, K2)
Cells == Cols \X (1..(NP * N))
Lanes(c, p) == {<<c, k>> : k \in ((p - 1) * N + 1)..(p * N)}
\* the padding may hold anything: here, a value that is not comparable counts as larger than all points or smaller
Init == /\ x \in [Cols -> Grids] /\ tg \in [Cells -> Targets] /\ (\A c \in Cols : \A k \in 1..(K2 - 1) : tg[<<c, k>>] < tg[<<c, k + 1>>])
        /\ map = [c \in Cells |-> 0] /\ lo = 0 /\ cnt = 0 /\ cur = <<>> /\ done = {} /\ ph = "setup"
\* bisection, one step at a time
Start(c) == /\ ph = "setup" /\ cur = <<>> /\ map[c] = 0 /\ cur' = c /\ lo' = 0 /\ cnt' = Len(x[c[1]]) /\ UNCHANGED <<x, tg, map, done, ph>>
Step == /\ cur # <<>> /\ cnt > 0
        /\ LET s == cnt \div 2 IN
             IF tg[cur] >= x[cur[1]][lo + s + 1] THEN lo' = lo + s + 1 /\ cnt' = cnt - (s + 1) ELSE lo' = lo /\ cnt' = s
        /\ UNCHANGED <<x, tg, map, cur, done, ph>>
Found == /\ cur # <<>> /\ cnt = 0 /\ map' = [map EXCEPT ![cur] = IF lo > 0 THEN lo ELSE 1] /\ cur' = <<>> /\ UNCHANGED <<x, tg, lo, cnt, done, ph>>
Use == /\ ph = "setup" /\ cur = <<>> /\ (\A c \in Cells : map[c] # 0) /\ ph' = "use" /\ UNCHANGED <<x, tg, map, lo, cnt, cur, done>>
Interp(c, p) == /\ ph = "use" /\ <<c, p>> \notin done /\ done' = done \cup {<<c, p>>} /\ UNCHANGED <<x, tg, map, lo, cnt, cur, ph>>
\* a new setup of one column, with other targets
Again(c) == /\ ph = "use" /\ done = Cols \X (1..NP) /\ ph' = "setup" /\ done' = {} /\ map' = [d \in Cells |-> IF d[1] = c THEN 0 ELSE map[d]]
            /\ tg' = [d \in Cells |-> IF d[1] = c THEN W - tg[<<c, (NP * N) + 1 - d[2]>>] ELSE tg[d]] /\ UNCHANGED <<x, lo, cnt, cur>>
Next == (\E c \in Cells : Start(c)) \/ Step \/ Found \/ Use \/ (\E c \in Cols, p \in 1..NP : Interp(c, p)) \/ (\E c \in Cols : Again(c))
Spec == Init /\ [][Next]_vars
\* the search is correct, and bounded
Bounded == cur # <<>> => lo >= 0 /\ cnt >= 0 /\ lo + cnt <= Len(x[cur[1]])
Window == cur # <<>> => (\A k \in 1..lo : x[cur[1]][k] <= tg[cur]) /\ (\A k \in (lo + cnt + 1)..Len(x[cur[1]]) : x[cur[1]][k] > tg[cur])
\* the pieces used are the ones that bracket the targets: two points, both of the source, and on the line through them lie
\* the values of any linear data (num/den), of data that is 0 but at one point, and the points themselves
Other(c, k) == IF k = Len(x[c]) THEN k - 1 ELSE k + 1
Value(c, y, k, t) == <<(y[Other(c, k)] - y[k]) * (t - x[c][k]) + y[k] * (x[c][Other(c, k)] - x[c][k]), x[c][Other(c, k)] - x[c][k]>>
Data(c) == {[k \in 1..Len(x[c]) |-> IF k = j THEN 1 ELSE 0] : j \in 1..Len(x[c])}
Right == \A d \in Cells : map[d] # 0 =>
           LET c == d[1]  t == tg[d]  k == map[d] IN
           /\ k \in 1..Len(x[c]) /\ Other(c, k) \in 1..Len(x[c])
           /\ \A y \in Data(c) : LET v == Value(c, y, k, t)  j == Piece(x[c], t) IN (v[1] - y[j] * v[2]) * (x[c][j + 1] - x[c][j]) = (y[j + 1] - y[j]) * (t - x[c][j]) * v[2]
           /\ LET y == [j \in 1..Len(x[c]) |-> 3 * x[c][j] - 2]  v == Value(c, y, k, t) IN v[1] = (3 * t - 2) * v[2]
           /\ \A j \in 1..Len(x[c]) : x[c][j] = t => \A y \in Data(c) : Value(c, y, k, t)[1] = y[j] * Value(c, y, k, t)[2]
=============================================================================
