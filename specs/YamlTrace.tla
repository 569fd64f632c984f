----------------------------- MODULE YamlTrace ------------------------------
(* Documents parsed by the real reader, and histories of lists written to    *)
(* and read from files.                                                      *)
EXTENDS Yaml, TraceCommon
VARIABLES l, w, f
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ w = <<>> /\ f = Nil
RECURSIVE Match(_, _)
Match(t, d) == /\ DOMAIN d = {"n", "p", "s"} /\ t.n = d.n
               /\ DOMAIN t.p = DOMAIN d.p /\ \A k \in DOMAIN t.p : t.p[k] = d.p[k]
               /\ DOMAIN t.s = DOMAIN d.s /\ \A k \in DOMAIN t.s : Match(t.s[k], d.s[k])
Dumps == \A i \in DOMAIN w' : Match(w'[i], R.dump[i])
Upd(t) == w' = [w EXCEPT ![R.l] = Put(w[R.l], R.path, t)] /\ UNCHANGED f
T == At(w[R.l], R.path)
Step ==
  \/ /\ Is("Parse") /\ UNCHANGED <<w, f>>
     /\ IF ~R.ok THEN R.err
        ELSE IF R.doc.k # "map" \/ Bad(R.doc) THEN R.err
        ELSE ~R.err /\ R.dump.n = R.name /\ Denotes(R.doc, R.dump)
  \/ Is("New") /\ w' = <<New("p"), New("q"), New("")>> /\ f' = Nil /\ Dumps
  \/ Is("Set") /\ ~R.err /\ Upd(Set(T, R.key, [ty |-> R.ty, v |-> R.v])) /\ Dumps
  \/ Is("Sub") /\ ~R.err /\ Upd(T) /\ Dumps
  \/ Is("Save") /\ w' = w /\ Dumps
     /\ IF ~R.can \/ ~AllWritable(w[R.l]) THEN R.err /\ f' = [x \in DOMAIN f \ {R.file} |-> f[x]]
        ELSE ~R.err /\ f' = (R.file :> w[R.l]) @@ f
  \* files the writer refused are never read by the driver
  \/ Is("Load") /\ UNCHANGED f
     /\ IF R.file \notin DOMAIN f THEN R.err /\ w' = w
        ELSE ~R.err /\ w' = [w EXCEPT ![R.l] = ReadBack(f[R.file], w[R.l].n)]
     /\ Dumps
Next == Step
Spec == Init /\ [][Next]_<<l, w, f>>
=============================================================================
