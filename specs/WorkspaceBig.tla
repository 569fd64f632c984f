---------------------------- MODULE WorkspaceBig ----------------------------
(* Random walks of the allocator with many blocks: fill, drain, and back.   *)
(* Run with TLC -simulate; each walk is printed when it is Len long.        *)
EXTENDS Workspace
CONSTANTS Length
VARIABLES up, log
InitB == Init /\ up = TRUE /\ log = <<>>
Grow == Take \/ \E n \in {RandomElement(K)} : TakeMany(n) \/ (n <= 5 /\ TakeContig(n)) \/ TakeMacro(n)
Shrink == \E r \in {RandomElement(live)} :
            \/ \E s \in {RandomElement(SlotsOf(r))} : Release(r, s) \/ \E n \in {RandomElement(K)} : ReleaseContig(r, s, n)
            \/ ReleaseMacro(r)
Rare(k) == RandomElement(1..k) = 1
NextB == /\ IF up /\ Len(Free) > 0 THEN Grow ELSE IF live = {} THEN Take ELSE (Rare(60) /\ Reset) \/ Shrink
         /\ up' = IF Used' > N - 6 THEN FALSE ELSE IF Used' < N \div 3 THEN TRUE ELSE IF Rare(9) THEN ~up ELSE up
         /\ log' = Append(log, op')
PrintWalk == Len(log) = Length => PrintT("W~" \o ToJson(log))
GoodB == FreeListExact /\ Disjoint /\ RunsChained
SpecB == InitB /\ [][NextB]_<<head, nxt, live, op, up, log>>
=============================================================================
