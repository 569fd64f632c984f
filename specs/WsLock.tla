------------------------------- MODULE WsLock -------------------------------
(* Sharing of S workspaces by L teams (C03).  A team asks, first for slot    *)
(* (rank mod S), then for slots drawn at random, until a compare-and-swap    *)
(* takes a free one; it holds it and gives it back.  Every team does so      *)
(* Rounds times.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS L, S, Rounds
VARIABLES pc, want, flag, mine, left
vars == <<pc, want, flag, mine, left>>
Teams == 0..L - 1
Slots == 0..S - 1
None == -1
Init == /\ pc = [t \in Teams |-> "idle"] /\ want = [t \in Teams |-> None] /\ mine = [t \in Teams |-> None]
        /\ flag = [s \in Slots |-> 0] /\ left = [t \in Teams |-> Rounds]
Ask(t) == /\ pc[t] = "idle" /\ left[t] > 0
          /\ pc' = [pc EXCEPT ![t] = "try"] /\ want' = [want EXCEPT ![t] = t % S]
          /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<flag, mine>>
Take(t) == /\ pc[t] = "try" /\ flag[want[t]] = 0
           /\ flag' = [flag EXCEPT ![want[t]] = 1] /\ mine' = [mine EXCEPT ![t] = want[t]]
           /\ pc' = [pc EXCEPT ![t] = "hold"] /\ want' = [want EXCEPT ![t] = None] /\ UNCHANGED left
Draw(t, s) == /\ pc[t] = "try" /\ flag[want[t]] = 1
              /\ want' = [want EXCEPT ![t] = s] /\ UNCHANGED <<pc, flag, mine, left>>
Release(t) == /\ pc[t] = "hold"
              /\ flag' = [flag EXCEPT ![mine[t]] = 0] /\ mine' = [mine EXCEPT ![t] = None]
              /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<want, left>>
Step(t) == Ask(t) \/ Take(t) \/ Release(t) \/ \E s \in Slots : Draw(t, s)
Next == \E t \in Teams : Step(t)
Fair == /\ \A t \in Teams : WF_vars(Ask(t)) /\ WF_vars(Release(t)) /\ SF_vars(Take(t))
        /\ \A t \in Teams, s \in Slots : SF_vars(Draw(t, s))
Spec == Init /\ [][Next]_vars /\ Fair
Exclusive == \A t, u \in Teams : t # u /\ mine[t] # None => mine[t] # mine[u]
InRange == \A t \in Teams : mine[t] \in Slots \cup {None}
FlagsTell == \A s \in Slots : flag[s] = Cardinality({t \in Teams : mine[t] = s})
NeverFullForNothing == (\A s \in Slots : flag[s] = 1) => Cardinality({t \in Teams : pc[t] = "hold"}) = S
EveryoneGets == \A t \in Teams : pc[t] = "try" ~> pc[t] = "hold"
AllFree == <>[](\A s \in Slots : flag[s] = 0)
\* edges for schedules: only the team that moves is told
Key == ToString(<<pc, want, flag, mine, left>>)
Edge == PrintT("E~" \o Key \o "~" \o ToString(CHOOSE t \in Teams : pc[t] # pc'[t] \/ want[t] # want'[t] \/ mine[t] # mine'[t] \/ left[t] # left'[t]) \o "~" \o ToString(<<pc', want', flag', mine', left'>>))
FirstEdge == (TLCGet("level") = 1) => PrintT("I~" \o Key)
Moves == \E t \in Teams : pc[t] # pc'[t] \/ want[t] # want'[t]
EdgeOut == Moves => Edge
SpecS == Init /\ [][Next]_vars
=============================================================================
