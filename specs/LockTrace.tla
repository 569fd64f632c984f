----------------------------- MODULE LockTrace ------------------------------
(* What teams see of the lock: a workspace is given to one team at a time    *)
(* (until it calls release), every thread of the team gets the same one, it  *)
(* is in range, and every team that asks obtains one.                        *)
EXTENDS TraceCommon
VARIABLES l, L, S, ts, held, asked, seen, turns
\* held: team -> workspace or -1;  seen: team -> team ranks that know it
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
vars == <<l, L, S, ts, held, asked, seen, turns>>
Init == l = 1 /\ L = 0 /\ S = 0 /\ ts = 0 /\ held = <<>> /\ asked = <<>> /\ seen = <<>> /\ turns = 0
New == /\ Is("New") /\ R.S >= 1 /\ R.S <= R.L
       /\ L' = R.L /\ S' = R.S /\ ts' = R.ts
       /\ held' = [t \in 0..R.L - 1 |-> -1] /\ asked' = [t \in 0..R.L - 1 |-> FALSE] /\ seen' = [t \in 0..R.L - 1 |-> {}] /\ turns' = 0
Ask == Is("Ask") /\ held[R.t] = -1 /\ asked' = [asked EXCEPT ![R.t] = TRUE] /\ UNCHANGED <<L, S, ts, held, seen, turns>>
Got == /\ Is("Got") /\ asked[R.t] /\ R.w \in 0..S - 1 /\ R.rank \in 0..ts - 1 /\ R.rank \notin seen[R.t]
       /\ held[R.t] \in {-1, R.w}                                     \* one workspace per team
       /\ \A u \in DOMAIN held : u # R.t => held[u] # R.w             \* and one team per workspace
       /\ held' = [held EXCEPT ![R.t] = R.w] /\ seen' = [seen EXCEPT ![R.t] = @ \cup {R.rank}]
       /\ turns' = turns + 1 /\ UNCHANGED <<L, S, ts, asked>>
Rel == /\ Is("Rel") /\ held[R.t] = R.w /\ seen[R.t] = 0..ts - 1
       /\ held' = [held EXCEPT ![R.t] = -1] /\ asked' = [asked EXCEPT ![R.t] = FALSE] /\ seen' = [seen EXCEPT ![R.t] = {}]
       /\ UNCHANGED <<L, S, ts, turns>>
\* nobody is left waiting or holding
End == Is("End") /\ turns > 0 /\ (\A t \in DOMAIN held : held[t] = -1 /\ ~asked[t]) /\ UNCHANGED <<L, S, ts, held, asked, seen, turns>>
Next == New \/ Ask \/ Got \/ Rel \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
