-------------------------------- MODULE Chk ---------------------------------
(* Checks that throw, in programs made of blocks, objects with destructors   *)
(* and handlers (C19).  The machine is C++'s: a stack of frames, and the     *)
(* exceptions in flight (thrown, and not yet caught), oldest first.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* frames: [k |-> "scope"|"dtor"|"try"|"catch", un |-> destructor run by unwinding]
Frame(k, un) == [k |-> k, un |-> un]
Fresh == [stack |-> <<>>, exc |-> <<>>, issued |-> FALSE, mode |-> "run"]
Top(m) == m.stack[Len(m.stack)]
On(m, k) == m.stack # <<>> /\ Top(m).k = k
Pop(m) == [m EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Push(m, f) == [m EXCEPT !.stack = Append(@, f)]
\* an exception leaves handlers, and destructors that ran as part of normal flow
RECURSIVE Settle(_)
Settle(m) == IF m.mode = "unwind" /\ m.stack # <<>> /\ (Top(m).k = "catch" \/ (Top(m).k = "dtor" /\ ~Top(m).un)) THEN Settle(Pop(m)) ELSE m
Raise(m, x) == Settle([m EXCEPT !.exc = Append(@, x), !.mode = "unwind"])
\* the program is terminated: a second exception leaves a destructor run by unwinding, or nobody catches
Terminated(m) == m.mode = "unwind" /\ (m.stack = <<>> \/ (Top(m).k = "dtor" /\ Top(m).un))
CanDtor(m) == On(m, "scope")
Dtor(m) == IF m.mode = "unwind" THEN [Push(Pop(m), Frame("dtor", TRUE)) EXCEPT !.mode = "run"] ELSE Push(Pop(m), Frame("dtor", FALSE))
CanEndDtor(m) == m.mode = "run" /\ On(m, "dtor")
EndDtor(m) == Settle([Pop(m) EXCEPT !.mode = IF Top(m).un THEN "unwind" ELSE "run"])
CanCatch(m) == m.mode = "unwind" /\ On(m, "try")
Caught(m) == m.exc[Len(m.exc)]
Catch(m) == [Push(Pop(m), [k |-> "catch", un |-> FALSE, x |-> Caught(m)]) EXCEPT !.mode = "run", !.exc = SubSeq(@, 1, Len(@) - 1)]
CanRethrow(m) == m.mode = "run" /\ On(m, "catch")
Rethrow(m) == Raise(m, Top(m).x)
CanEnd(m, k) == m.mode = "run" /\ On(m, k)
\* a check that fails: suppressed, and reported at most once, while an exception is in flight
Suppressed(m) == m.exc # <<>>
Fail(m, x) == IF Suppressed(m) THEN [m EXCEPT !.issued = TRUE] ELSE Raise([m EXCEPT !.issued = FALSE], x)
=============================================================================
