--------------------------- MODULE TridiagTrace ---------------------------
EXTENDS Tridiag, TraceCommon
VARIABLES ans, l
vars == <<ans, l>>
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ ans = [x \in {} |-> 0]
\* every column solves its system (one for all columns or one for each); nothing beyond the arrays changed; the threads did not race
Solve == /\ Is("Solve") /\ R.ok
         /\ \A k \in DOMAIN R.x : Solves(R.p, R.m[IF Len(R.m) = 1 THEN 1 ELSE k], R.x[k], R.b[k])
         /\ \A k \in DOMAIN R.ph : RaceFree(R.ph[k])
         /\ UNCHANGED ans
\* the bit-for-bit solver: a system has one answer
Bits == /\ Is("Bits")
        /\ \A k \in DOMAIN R.q : R.q[k] \in DOMAIN ans => ans[R.q[k]] = R.x[k]
        /\ \A j, k \in DOMAIN R.q : R.q[j] = R.q[k] => R.x[j] = R.x[k]
        /\ ans' = [q \in DOMAIN ans \cup Elems(R.q) |-> IF q \in DOMAIN ans THEN ans[q] ELSE R.x[CHOOSE k \in DOMAIN R.q : R.q[k] = q]]
New == Is("New") /\ ans' = [x \in {} |-> 0]
Next == Solve \/ Bits \/ New
Spec == Init /\ [][Next]_vars
=============================================================================
