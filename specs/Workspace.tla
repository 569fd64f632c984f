----------------------------- MODULE Workspace ------------------------------
(* The allocator behind a team workspace, shaped like the implementation:   *)
(* a free list threaded through the blocks (head, nxt), LIFO.  It is        *)
(* checked against WsContract by refinement, and its state graph is what    *)
(* the conformance driver walks: every edge is replayed on the real code.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,        \* blocks
          K,        \* sizes used for multi-block requests
          Emit      \* print edges
VARIABLES head, nxt, live, op
vars == <<head, nxt, live>>
Slots == 0..N-1

\* a live block: kind "one" (released singly), "run" (taken together and
\* contiguous: may also be released together) or "macro"; first slot, length
Blocks == [k : {"one", "run", "macro"}, s : Slots, n : 1..N]
SlotsOf(b) == b.s .. (b.s + b.n - 1)
LiveSlots == UNION {SlotsOf(b) : b \in live}
Used == Cardinality(LiveSlots)

RECURSIVE Walk(_, _, _)
Walk(h, nx, fuel) == IF h >= N \/ fuel = 0 THEN <<>> ELSE <<h>> \o Walk(nx[h], nx, fuel - 1)
Free == Walk(head, nxt, N + 1)

RECURSIVE Str(_)
Str(q) == IF q = <<>> THEN "" ELSE " " \o ToString(Head(q)) \o Str(Tail(q))

Init == head = 0 /\ nxt = [s \in Slots |-> s + 1] /\ live = {} /\ op = "new"

\* the first n free blocks are consecutive in memory and chained in order
Contig(n) == Len(Free) >= n /\ \A i \in 1..n-1 : Free[i+1] = Free[i] + 1

Take == /\ Len(Free) >= 1
        /\ head' = nxt[head]
        /\ live' = live \cup {[k |-> "one", s |-> head, n |-> 1]}
        /\ UNCHANGED nxt /\ op' = "take " \o ToString(head)
TakeMany(n) == /\ Len(Free) >= n
               /\ head' = nxt[Free[n]]
               /\ live' = live \cup {[k |-> "one", s |-> Free[i], n |-> 1] : i \in 1..n}
               /\ UNCHANGED nxt /\ op' = "many" \o Str(SubSeq(Free, 1, n))
TakeContig(n) == /\ Contig(n)
                 /\ head' = nxt[Free[n]]
                 /\ live' = live \cup {[k |-> "run", s |-> head, n |-> n]}
                 /\ UNCHANGED nxt /\ op' = "contig" \o Str(SubSeq(Free, 1, n))
TakeMacro(n) == /\ Contig(n)
                /\ head' = nxt[Free[n]]
                /\ live' = live \cup {[k |-> "macro", s |-> head, n |-> n]}
                \* the user may write over the links inside the macro block
                /\ nxt' = [s \in Slots |-> IF s > head /\ s < head + n THEN -1 ELSE nxt[s]]
                /\ op' = "macro " \o ToString(head) \o " " \o ToString(n)
AndReset(n) == /\ n <= N
               /\ head' = n
               /\ nxt' = [s \in Slots |-> s + 1]
               /\ live' = {[k |-> "run", s |-> 0, n |-> n]}
               /\ op' = "andreset " \o ToString(n)
\* what is left of a run when slots a..b are taken out of it
Rest(r, a, b) == {x \in {[k |-> "run", s |-> r.s, n |-> a - r.s], [k |-> "run", s |-> b + 1, n |-> r.s + r.n - 1 - b]} : x.n > 0}
Release(r, s) == /\ r \in live /\ r.k # "macro" /\ s \in SlotsOf(r)
                 /\ nxt' = [nxt EXCEPT ![s] = head]
                 /\ head' = s
                 /\ live' = (live \ {r}) \cup Rest(r, s, s)
                 /\ op' = "release " \o ToString(s)
ReleaseContig(r, s, n) ==
                 /\ r \in live /\ r.k = "run" /\ s >= r.s /\ s + n <= r.s + r.n
                 /\ nxt' = [nxt EXCEPT ![s + n - 1] = head]
                 /\ head' = s
                 /\ live' = (live \ {r}) \cup Rest(r, s, s + n - 1)
                 /\ op' = "relcontig " \o ToString(s) \o " " \o ToString(n)
ReleaseMacro(r) == /\ r \in live /\ r.k = "macro"
                   /\ nxt' = [s \in Slots |-> IF s = r.s + r.n - 1 THEN head ELSE IF s \in SlotsOf(r) THEN s + 1 ELSE nxt[s]]
                   /\ head' = r.s
                   /\ live' = live \ {r}
                   /\ op' = "relmacro " \o ToString(r.s) \o " " \o ToString(r.n)
Reset == /\ head' = 0 /\ nxt' = [s \in Slots |-> s + 1] /\ live' = {} /\ op' = "reset"
ResetManager == /\ head' = 0 /\ nxt' = [s \in Slots |-> s + 1] /\ live' = {} /\ op' = "resetmgr"

Next == \/ Take
        \/ \E n \in K : TakeMany(n) \/ TakeContig(n) \/ TakeMacro(n) \/ AndReset(n)
        \/ \E r \in live : (\E s \in Slots : Release(r, s)) \/ (\E s \in Slots, n \in K : ReleaseContig(r, s, n)) \/ ReleaseMacro(r)
        \/ Reset \/ ResetManager
Spec == Init /\ [][Next]_<<head, nxt, live, op>>

\* ------------------------------------------------------------- invariants
Range(q) == {q[i] : i \in DOMAIN q}
\* the free list is exactly the slots that are not live, each once
FreeListExact == Range(Free) = Slots \ LiveSlots /\ Len(Free) = N - Used
Disjoint == \A a, b \in live : a # b => SlotsOf(a) \cap SlotsOf(b) = {}
\* links inside a run survive, so that it can be released as a whole
RunsChained == \A r \in live : r.k = "run" => \A i \in r.s .. r.s + r.n - 2 : nxt[i] = i + 1
TypeOK == head \in 0..N /\ live \subseteq Blocks

\* ------------------------------------------------------------- refinement
\* a run is n blocks of the contract, a macro block one that counts n
AbsBlocks == UNION {IF r.k = "run" THEN {[k |-> "one", s |-> i, n |-> 1] : i \in SlotsOf(r)} ELSE {r} : r \in live}
AbsLive == [s \in {b.s : b \in AbsBlocks} |-> LET b == CHOOSE x \in AbsBlocks : x.s = s IN [off |-> s, len |-> b.n, n |-> b.n, name |-> "b", tag |-> s]]
C == INSTANCE WsContract WITH cfg <- [cap |-> N, bytes |-> N], live <- AbsLive, high <- 0, cnt <- [x \in {} |-> x]
ContractHolds == C!Invariant
\* every step takes new blocks and/or releases old ones; nothing else moves
ContractSteps == [][\/ \A h \in DOMAIN AbsLive : h \in DOMAIN AbsLive' /\ AbsLive'[h] = AbsLive[h]
                    \/ \A h \in DOMAIN AbsLive' : h \in DOMAIN AbsLive /\ AbsLive'[h] = AbsLive[h]
                    \/ \E n \in K : AndReset(n)]_vars

\* ------------------------------------------------------------- edges for replay
St == ToString(<<head, nxt, live>>)
PrintEdge == Emit => PrintT("E~" \o ToString(vars) \o "~" \o op' \o "~" \o ToString(vars'))
InitPrint == (Emit /\ op = "new" /\ TLCGet("level") = 1) => PrintT("I~" \o ToString(vars))
=============================================================================
