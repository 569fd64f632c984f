---------------------------- MODULE InterpTrace ----------------------------
EXTENDS Interp, TraceCommon
VARIABLES li, grid, l
vars == <<li, grid, l>>
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ li = <<>> /\ grid = <<>>
New == /\ Is("New") /\ R.p1 = Packs(R.n, R.km1) /\ R.p2 = Packs(R.n, R.km2) /\ R.league = R.ncol
       /\ li' = [km1 |-> R.km1, km2 |-> R.km2, ncol |-> R.ncol] /\ grid' = [c \in 1..R.ncol |-> <<>>]
Setup == /\ Is("Setup") /\ Len(R.x1) = li.km1 /\ Len(R.x2) = li.km2 /\ Increasing(R.x1)
         /\ grid' = [grid EXCEPT ![R.col + 1] = <<R.x1, R.x2>>] /\ UNCHANGED li
Use == /\ Is("Interp") /\ R.ok /\ Len(R.y2) = li.km2
       /\ LET x1 == grid[R.col + 1][1]  x2 == grid[R.col + 1][2] IN
          \A k \in 1..li.km2 : IF R.q = 1 THEN At(x1, R.y1, x2[k], R.y2[k]) ELSE Near(x1, R.y1, x2[k], R.y2[k], R.q, 4)
       /\ UNCHANGED <<li, grid>>
\* whatever the numbers, a target on a source point gets its value to the bit
Hits == Is("Hits") /\ (\A k \in DOMAIN R.x2 : \A j \in DOMAIN R.x1 : R.x2[k] = R.x1[j] => R.y2[k] = R.y1[j]) /\ UNCHANGED <<li, grid>>
Next == New \/ Setup \/ Use \/ Hits
Spec == Init /\ [][Next]_vars
=============================================================================
