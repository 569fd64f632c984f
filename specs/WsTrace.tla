------------------------------ MODULE WsTrace -------------------------------
(* Conformance: a recorded history of the real workspace against WsContract *)
EXTENDS WsContract, TraceCommon
CONSTANT CheckStats    \* also the bookkeeping (C02)
VARIABLE l
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1

Init == l = 1 /\ cfg = [cap |-> 0, bytes |-> 0, blk |-> 0, sz |-> 1] /\ live = EmptyF /\ high = 0 /\ cnt = EmptyF

New == /\ Is("New")
       /\ cfg' = [cap |-> R.cap, bytes |-> R.need, blk |-> R.blk, sz |-> R.sz]
       /\ live' = EmptyF /\ high' = 0 /\ cnt' = EmptyF

\* what every operation shows: the contents of all live blocks, and the same
\* answer on every thread of the team
Observed ==
  /\ R.same /\ R.guard
  /\ {R.tags[i][1] : i \in DOMAIN R.tags} = DOMAIN live'
  /\ \A i \in DOMAIN R.tags : R.tags[i][2] # -1
  /\ R.bytes = 0 \/ R.bytes >= cfg.bytes    \* 0: nothing taken yet, so not located
  /\ CheckStats => \A i \in DOMAIN R.names : LET h == R.names[i][1] IN h \in DOMAIN live' /\ R.names[i][2] = live'[h].name

\* handles are numbered 1000 * team + block
Mine == {h \in DOMAIN live : h \div 1000 = R.team}
NewBlocks == [h \in {R.h[i] : i \in DOMAIN R.h} |->
                LET i == CHOOSE j \in DOMAIN R.h : R.h[j] = h
                IN [off |-> R.off[i], len |-> R.len[i], n |-> R.n[i], name |-> R.name[i]]]
\* block sizes: floor(block bytes / element size) elements
SizesOK == \A i \in DOMAIN R.h :
             IF R.n[i] = 1 THEN R.ext[i] = cfg.blk \div cfg.sz /\ R.len[i] = R.ext[i] * cfg.sz
             ELSE R.ext[i] >= cfg.blk \div cfg.sz /\ R.len[i] = R.n[i] * cfg.blk

DoTake == Is("Take") /\ SizesOK /\ TakeBlocks(NewBlocks, R.h) /\ Observed
DoTakeAndReset == Is("TakeAndReset") /\ SizesOK /\ TakeAndReset(Mine, NewBlocks, R.h) /\ Observed
DoRelease == Is("Release") /\ ReleaseBlocks({R.h[i] : i \in DOMAIN R.h}) /\ Observed
DoReset == Is("Reset") /\ Reset(Mine) /\ Observed
DoResetManager == Is("ResetManager") /\ ResetManager

Listed(seq, name) == {i \in DOMAIN seq : seq[i].name = name}
DoReport == /\ Is("Report")
            /\ CheckStats =>
                 /\ R.cur = <<Used>> /\ R.high = <<high>>
                 /\ \A i \in DOMAIN R.per : R.per[i].idx = 0
                 /\ \A q \in {R.per, R.sum} :
                      /\ \A i, j \in DOMAIN q : q[i].name = q[j].name => i = j
                      /\ \A i \in DOMAIN q : IF q[i].name \in DOMAIN cnt THEN cnt[q[i].name] = <<q[i].take, q[i].rel>>
                                             ELSE q[i].take = 0 /\ q[i].rel = 0
                      /\ \A nm \in DOMAIN cnt : cnt[nm] # <<0, 0>> => Listed(q, nm) # {}
                 /\ \A i \in DOMAIN R.sum : R.sum[i].used = 1
            /\ UNCHANGED cvars

\* a misuse ended in a diagnosis; Undiagnosed records are never accepted.
\* After it the history is over.
Misused(o) ==
  CASE o.op \in {"take", "many", "contig", "macro", "andreset"} -> TRUE
    [] o.op \in {"release", "relcontig", "relmacro"} -> \E i \in DOMAIN o.h : o.h[i] \notin DOMAIN live
    [] OTHER -> FALSE
DoDiagnosed == Is("Diagnosed") /\ R.by = "kernel check" /\ Misused(R) /\ UNCHANGED cvars

Next == New \/ DoTake \/ DoTakeAndReset \/ DoRelease \/ DoReset \/ DoResetManager \/ DoReport \/ DoDiagnosed
Spec == Init /\ [][Next]_<<cvars, l>>
=============================================================================
