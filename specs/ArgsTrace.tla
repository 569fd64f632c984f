------------------------------ MODULE ArgsTrace -----------------------------
EXTENDS Args, TraceCommon
VARIABLE l
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1
SetOf(q) == {q[i] : i \in DOMAIN q}
Names(q) == {q[i][1] : i \in DOMAIN q}
Step ==
  \* a list of arguments, parsed
  \/ /\ Is("Parse") /\ R.err = Wrong(R.args)
     /\ ~R.err => LET t == Flat(R.args) IN SetOf(R.flags) = Flags(t) /\ SetOf(R.vec) = Vecs(t) /\ SetOf(R.params) = Params(t)
  \* an option of a program, in one of its spellings
  \/ /\ Is("Match") /\ R.res = (R.s = R.short \/ R.s = R.long \/ R.s = <<45>> \o R.short)
  \* a run of a test program: the tests named before --args run (all if none is), and see what follows it
  \/ /\ Is("Main")
     /\ LET bad == Wrong(R.custom) t == Flat(R.custom) IN
        /\ IF bad THEN R.status # 0 /\ R.ran = <<>>
           ELSE /\ SetOf(R.ran) = (IF R.named = <<>> THEN {"a", "b", "c"} ELSE SetOf(R.named)) /\ Len(R.ran) = Cardinality(SetOf(R.ran))
                /\ SetOf(R.flags) = Flags(t) /\ SetOf(R.vec) = Vecs(t) /\ SetOf(R.params) = Params(t)
                /\ R.status = (IF \E x \in SetOf(R.ran) : x \in SetOf(R.fails) THEN 1 ELSE 0)
  \* several ranks: failure of one is failure of the run
  \/ /\ Is("Ranks") /\ (R.status # 0) = (\E i \in DOMAIN R.failing : R.failing[i] < R.n)
  \* the launcher
  \/ /\ Is("Launch")
     /\ IF R.nocmd \/ R.badres THEN R.status # 0 /\ R.runs = 0
        ELSE /\ R.runs = 1 /\ R.argv = R.given /\ R.status = (IF R.code = 0 THEN 0 ELSE 1)
             /\ R.shown /\ R.bind = (IF R.setbind = "" THEN "spread" ELSE R.setbind) /\ R.places = (IF R.setplaces = "" THEN "threads" ELSE R.setplaces)
             /\ (R.affinity = "true") = R.p
             /\ R.cpus = (IF R.manage /\ R.groups # <<>> /\ ~R.gpu THEN LET ids == R.groups[(R.rank % Len(R.groups)) + 1] k == Len(ids) \div R.n IN SubSeq(ids, R.rank * k + 1, (R.rank + 1) * k) ELSE <<>>)
Next == Step
Spec == Init /\ [][Next]_l
=============================================================================
