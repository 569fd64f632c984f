------------------------------- MODULE FpeMC --------------------------------
(* A trap is active exactly when the last call that names it enabled it, in  *)
(* the thread or before the thread was started.                              *)
EXTENDS Fpe
Some == {"FE_INVALID", "FE_DIVBYZERO", "FE_INEXACT"}
Threads == 1..3
VARIABLES en, last, up
vars == <<en, last, up>>
Init == en = [t \in Threads |-> {}] /\ last = [t \in Threads |-> [x \in Some |-> FALSE]] /\ up = {1}
Masks == {Mask(S) : S \in SUBSET Some}
On(t, m) == t \in up /\ en' = [en EXCEPT ![t] = Enable(@, m)] /\ last' = [last EXCEPT ![t] = [x \in Some |-> x \in Of(m) \/ @[x]]] /\ UNCHANGED up
OffM(t, m) == t \in up /\ en' = [en EXCEPT ![t] = Disable(@, m)] /\ last' = [last EXCEPT ![t] = [x \in Some |-> x \notin Of(m) /\ @[x]]] /\ UNCHANGED up
Start(t, u) == t \in up /\ u \notin up /\ up' = up \cup {u} /\ en' = [en EXCEPT ![u] = en[t]] /\ last' = [last EXCEPT ![u] = last[t]]
Next == \E t \in Threads : (\E m \in Masks : On(t, m) \/ OffM(t, m)) \/ \E u \in Threads : Start(t, u)
Spec == Init /\ [][Next]_vars
Right == \A t \in Threads : en[t] = {x \in Some : last[t][x]}
RoundTrip == \A S \in SUBSET Traps : Of(Mask(S)) = S
Stops == \A t \in Threads, op \in {"zero/zero", "one/zero", "one/three", "huge*huge", "one+one"} : Stopped(en[t], op) = (\E x \in Signals(op) : x \in en[t])
=============================================================================
