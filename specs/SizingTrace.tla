---------------------------- MODULE SizingTrace -----------------------------
EXTENDS Sizing, TraceCommon
VARIABLES l
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1
Next ==
  \/ Is("Default") /\ R.league = R.ni /\ R.team = DefaultTeam(R.var, R.th, R.nk)
  \/ Is("Forced") /\ R.league = R.ni /\ R.team = R.ts
  \/ Is("Scan") /\ R.league = R.ni /\ R.team = ScanTeam(R.var, R.th, R.nk)
  \/ /\ Is("Utils")
     /\ IF R.n < R.d /\ R.var = "gpu" THEN R.err
        ELSE LET mt == MaxThreads(R.var, R.th, R.single) k == Teams(mt, R.ni, R.ts)
             IN /\ ~R.err /\ R.max = mt /\ R.teams = k
                /\ R.slots = Slots(R.var, k, R.ni, R.n, R.d)
  \* no policy given so far
  \/ Is("Unset") /\ R.err = <<1, 1, 1>>
Spec == Init /\ [][Next]_l
=============================================================================
