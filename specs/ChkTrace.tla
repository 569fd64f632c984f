------------------------------ MODULE ChkTrace ------------------------------
(* Recorded runs of programs with checks, one step per event.                *)
EXTENDS Chk, TraceCommon
VARIABLES l, m
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ m = Fresh
Contains(s, sub) == \E i \in 1..(Len(s) - Len(sub) + 1) : SubSeq(s, i, i + Len(sub) - 1) = sub
Asserts == {8, 9, 14}
\* kind 14 stands in a branch that is not taken
Quiet(r) == r.kind = 14 \/ (r.kind \in Asserts /\ ~m.debug)
HasMsg(r) == r.kind \notin {0, 8}
\* the message as it was put together
Text(r) == IF ~HasMsg(r) THEN "" ELSE IF r.kind = 6 THEN r.msg \o " n=42!" ELSE r.msg
Type(k) == CASE k = 2 -> "logic" [] k = 3 -> "str" [] k = 4 -> "def" [] OTHER -> "runtime"
Complete(s, r) == Contains(s, Text(r)) /\ Contains(s, r.cond) /\ Contains(s, r.place)
CheckPasses == /\ R.evals = IF Quiet(R) \/ R.kind = 7 THEN 0 ELSE IF R.kind = 10 /\ R.val THEN 0 ELSE 1
               /\ R.other = (IF R.kind = 14 THEN 1 ELSE 0) /\ R.msgs = 0 /\ R.out = "on" /\ R.err = "" /\ m' = m
CheckFails == /\ R.evals = IF R.kind = 7 THEN 0 ELSE 1
              /\ R.other = 0 /\ R.msgs = IF HasMsg(R) THEN 1 ELSE 0
              /\ m' = Fail(m, [type |-> Type(R.kind), what |-> R.what])
              /\ IF Suppressed(m) THEN R.out = "on" /\ (IF m.issued THEN R.err = "" ELSE Contains(R.err, Text(R)))
                 ELSE /\ R.out = "throw" /\ R.type = Type(R.kind)
                      /\ IF R.kind = 4 THEN Complete(R.err, R) ELSE Complete(R.what, R)
Kernel == LET fails == ~R.val /\ (R.kind \in {2, 3} => R.debug)
              cond == IF R.kind = 4 THEN "false" ELSE "cond(v)"
          IN IF fails THEN R.abrt = 6 /\ Contains(R.out, cond) /\ (R.kind \in {1, 3, 4} => Contains(R.out, R.msg))
             ELSE R.code = (IF R.kind \in {2, 3} /\ ~R.debug THEN 7 ELSE 0) /\ R.out = ""
Step ==
  \/ Is("New") /\ m' = [stack |-> <<>>, exc |-> <<>>, issued |-> FALSE, mode |-> "run", debug |-> R.debug]
  \/ Is("Again") /\ m.stack = <<>> /\ m.mode = "run" /\ m.exc = <<>> /\ m' = m
  \/ Is("Kernel") /\ m' = m /\ Kernel
  \/ Is("Scope") /\ m.mode = "run" /\ m' = Push(m, Frame("scope", FALSE))
  \/ Is("Try") /\ m.mode = "run" /\ m' = Push(m, Frame("try", FALSE))
  \/ Is("Dtor") /\ CanDtor(m) /\ m' = Dtor(m)
  \/ Is("EndDtor") /\ CanEndDtor(m) /\ m' = EndDtor(m)
  \/ Is("EndTry") /\ CanEnd(m, "try") /\ m' = Pop(m)
  \/ Is("EndCatch") /\ CanEnd(m, "catch") /\ m' = Pop(m)
  \/ Is("Catch") /\ CanCatch(m) /\ Caught(m) = [type |-> R.type, what |-> R.what] /\ m' = Catch(m)
  \/ Is("Throw") /\ m.mode = "run" /\ m' = Raise(m, [type |-> "own", what |-> R.what])
  \/ Is("Rethrow") /\ \E i \in DOMAIN m.stack : m.stack[i].k = "catch" /\ (\A j \in i + 1..Len(m.stack) : m.stack[j].k # "catch") /\ m.mode = "run" /\ m' = Raise(m, m.stack[i].x)
  \/ Is("Check") /\ m.mode = "run" /\ IF Quiet(R) \/ R.val THEN CheckPasses ELSE CheckFails
Next == Step
Spec == Init /\ [][Next]_<<l, m>>
=============================================================================
