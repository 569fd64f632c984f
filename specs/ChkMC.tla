------------------------------- MODULE ChkMC --------------------------------
(* All programs up to a depth: a failing check never terminates the program  *)
(* and never takes the place of the exception in flight.                     *)
EXTENDS Chk
CONSTANTS Depth, Steps
VARIABLES m, n, first, reports
vars == <<m, n, first, reports>>
Init == m = Push(Fresh, Frame("try", FALSE)) /\ n = 0 /\ first = <<>> /\ reports = 0
\* programs do not let exceptions of their own escape from a destructor run by unwinding
Inside(s) == LET d == {i \in DOMAIN s : s[i].k = "dtor" /\ s[i].un}
             IN d = {} \/ \E i \in DOMAIN s : s[i].k = "try" /\ \A j \in d : j < i
Room == Len(m.stack) < Depth
Step(next) == m' = next /\ n' = n + 1
\* the exception each unwinding started with
Keep == first' = IF m'.exc = <<>> THEN <<>> ELSE IF first = <<>> THEN <<m'.exc[1]>> ELSE first
Next == n < Steps /\ (
  \/ m.mode = "run" /\ Room /\ (Step(Push(m, Frame("scope", FALSE))) \/ Step(Push(m, Frame("try", FALSE)))) /\ UNCHANGED reports
  \/ CanDtor(m) /\ Step(Dtor(m)) /\ UNCHANGED reports
  \/ CanEndDtor(m) /\ Step(EndDtor(m)) /\ UNCHANGED reports
  \/ CanCatch(m) /\ Step(Catch(m)) /\ UNCHANGED reports
  \/ \E k \in {"try", "catch"} : CanEnd(m, k) /\ Len(m.stack) > 1 /\ Step(Pop(m)) /\ UNCHANGED reports
  \/ CanRethrow(m) /\ Inside(m.stack) /\ Step(Rethrow(m)) /\ UNCHANGED reports
  \/ m.mode = "run" /\ Inside(m.stack) /\ m.stack # <<>> /\ Len(m.exc) < 2 /\ Step(Raise(m, <<"own", n>>)) /\ UNCHANGED reports
  \/ m.mode = "run" /\ Step(Fail(m, <<"check", n>>)) /\ reports' = IF Suppressed(m) THEN (IF m.issued THEN reports ELSE reports + 1) ELSE 0) /\ Keep
Spec == Init /\ [][Next]_vars
NoTerminate == Terminated(m) => (m.stack = <<>>)
OnlyOneCheckInFlight == \A i \in 2..Len(m.exc) : m.exc[i][1] = "own"
Original == m.exc # <<>> => first = <<m.exc[1]>>
ReportedOnce == reports <= 1
=============================================================================
