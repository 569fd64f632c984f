---------------------------- MODULE SessionTrace ----------------------------
(* Histories of processes (New starts one).                                  *)
EXTENDS Session, TraceCommon
VARIABLES l, s, mask
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ s = Fresh /\ mask = FALSE
Shows(t) == /\ R.on = (t.st = "on") /\ R.fin = (t.st = "off") /\ R.fpe = Mask(t.en)
            /\ R.ninit = (IF t.st = "new" THEN 0 ELSE 1) /\ R.nfin = (IF t.st = "off" THEN 1 ELSE 0)
            /\ (t.st = "on" => R.conc = t.thr)
Quiet == R.out = "" /\ R.err = ""
Contains(x, sub) == \E i \in 1..(Len(x) - Len(sub) + 1) : SubSeq(x, i, i + Len(sub) - 1) = sub
Config(t) == Contains(R.out, "name: OpenMP") /\ Contains(R.out, "threads: " \o ToString(t.thr))
\* with arguments of its own, Kokkos may warn when it starts
Free == Has(R, "asked") /\ R.asked # 0 /\ s.st = "new"
Printed(t) == IF R.print THEN Config(t) ELSE R.out = "" \/ Free
Step ==
  \/ Is("New") /\ s' = Fresh /\ mask' = R.mask /\ Shows(s')
  \/ Is("Init") /\ s' = Start(s, 0, R.dflt) /\ mask' = mask /\ Shows(s') /\ Printed(s') /\ R.err = ""
  \/ Is("InitArgs") /\ s' = Start(s, R.asked, R.dflt) /\ mask' = mask /\ Shows(s') /\ Printed(s') /\ R.same
     /\ (R.asked = 0 => R.err = "")
  \/ Is("App") /\ s.st = "new" /\ s' = Start(s, R.asked, R.dflt) /\ mask' = mask /\ Shows(s')
  \/ Is("Fin") /\ s' = Stop(s) /\ mask' = mask /\ Shows(s') /\ Quiet
  \/ Is("TInit") /\ s' = TStart(s, R.asked, R.dflt, mask) /\ mask' = mask /\ Shows(s')
     /\ (IF R.print THEN Config(s') /\ Contains(R.out, "mask=" \o ToString(R.fpe)) ELSE R.out = "" \/ Free)
  \/ Is("TFin") /\ s' = Stop(s) /\ mask' = mask /\ Shows(s') /\ Quiet
  \/ Is("Fpe") /\ s' = [s EXCEPT !.en = Of(R.m)] /\ mask' = mask /\ Shows(s')
  \/ Is("Work") /\ s' = s /\ mask' = mask /\ s.st = "on" /\ R.sum = R.want /\ Shows(s)
  \/ Is("End") /\ s' = s /\ mask' = mask /\ R.status = 0
Next == Step
Spec == Init /\ [][Next]_<<l, s, mask>>
=============================================================================
