------------------------------ MODULE FpeTrace ------------------------------
EXTENDS Fpe, TraceCommon
VARIABLES l, en, up
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ en = {} /\ up = <<>>
\* what the queries say afterwards
Says(S) == R.mask = Mask(S) /\ R.nl /\ (IF S = {} THEN R.text = <<"NONE">> ELSE {R.text[i] : i \in DOMAIN R.text} = S /\ Len(R.text) = Cardinality(S))
Step ==
  \/ Is("New") /\ en' = {} /\ up' = <<>> /\ Says({})
  \/ Is("Enable") /\ en' = Enable(en, R.m) /\ UNCHANGED up /\ Says(en')
  \/ Is("Disable") /\ en' = Disable(en, R.m) /\ UNCHANGED up /\ Says(en')
  \/ Is("DisableAll") /\ en' = {} /\ UNCHANGED up /\ Says(en')
  \* an operation whose trap is active ends the (child) process with the signal; the others go on
  \/ Is("Op") /\ R.sig = (IF Stopped(en, R.op) THEN 8 ELSE 0) /\ UNCHANGED <<en, up>> /\ Says(en)
  \/ Is("Start") /\ up' = Append(up, en) /\ en' = en /\ Says(en)
  \/ Is("Join") /\ en' = up[Len(up)] /\ up' = SubSeq(up, 1, Len(up) - 1) /\ Says(en')
Next == Step
Spec == Init /\ [][Next]_<<l, en, up>>
=============================================================================
