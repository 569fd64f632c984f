--------------------------- MODULE ParamListTrace ---------------------------
(* Histories on three trees; after every call the dump of all three is what  *)
(* the specification holds.                                                  *)
EXTENDS ParamList, TraceCommon
VARIABLES l, w
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ w = <<>>
V == [ty |-> R.ty, v |-> R.v]
T == At(w[R.l], R.path)
\* the call creates the lists on its way, whatever comes of it
Walk == [w EXCEPT ![R.l] = Put(w[R.l], R.path, T)]
Upd(t) == w' = [w EXCEPT ![R.l] = Put(w[R.l], R.path, t)]
Src == At(w[R.l2], R.path2)
W2 == [w EXCEPT ![R.l2] = Put(w[R.l2], R.path2, Src)]
\* printing: what the line of an entry tells, in whatever format lists and reals are shown.
\* Long integers and empty sequences have no text of their own.
Tells(x, v) ==
  CASE v.ty \in {"i", "s", "b"} -> x.t = v.v
    [] v.ty \in {"vi", "vs", "vb"} -> x.w = v.v
    [] v.ty \in {"d", "f", "vd"} -> x.n = v.v
    [] OTHER -> TRUE
RECURSIVE Told(_, _, _)
Told(t, d, lines) ==
  /\ \E i \in DOMAIN lines : lines[i].in = d /\ lines[i].k = "" /\ lines[i].t = t.n \o ":"
  /\ \A k \in DOMAIN t.p : \E i \in DOMAIN lines : lines[i].in = d + 1 /\ lines[i].k = k /\ Tells(lines[i], t.p[k])
  /\ \A k \in DOMAIN t.s : Told(t.s[k], d + 1, lines)
RECURSIVE Keys(_)
Keys(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Keys(S \ {x})
RECURSIVE CountAll(_)
RECURSIVE Sum(_, _)
CountAll(t) == 1 + Cardinality(DOMAIN t.p) + Sum(t, Keys(DOMAIN t.s))
Sum(t, ks) == IF ks = <<>> THEN 0 ELSE CountAll(t.s[Head(ks)]) + Sum(t, Tail(ks))
Step ==
  \/ Is("New") /\ w' = <<New("p"), New("q"), New("")>>
  \/ Is("Set") /\ ~R.err /\ Upd(Set(T, R.key, V))
  \/ Is("Get") /\ (IF R.key \in DOMAIN T.p /\ Readable(T.p[R.key], R.ty)
                   THEN ~R.err /\ R.r = ReadFix(T.p[R.key], R.ty).v /\ Upd(Set(T, R.key, ReadFix(T.p[R.key], R.ty)))
                   ELSE /\ R.err
                        \* the wrong type leaves the list as it is
                        /\ w' = Walk)
  \/ Is("CGet") /\ w' = w /\ (IF Exists(w[R.l], R.path) /\ R.key \in DOMAIN T.p /\ Readable(T.p[R.key], R.ty)
                             THEN ~R.err /\ R.r = ReadFix(T.p[R.key], R.ty).v ELSE R.err)
  \/ Is("GetDef") /\ (IF R.key \notin DOMAIN T.p THEN ~R.err /\ R.r = R.v /\ Upd(Set(T, R.key, V))
                      ELSE IF Readable(T.p[R.key], R.ty) THEN ~R.err /\ R.r = ReadFix(T.p[R.key], R.ty).v /\ Upd(Set(T, R.key, ReadFix(T.p[R.key], R.ty)))
                      ELSE R.err /\ w' = Walk)
  \/ Is("Write") /\ (IF R.key \in DOMAIN T.p /\ Readable(T.p[R.key], R.ty) THEN ~R.err /\ Upd(Set(T, R.key, V)) ELSE R.err /\ w' = Walk)
  \/ Is("Sub") /\ ~R.err /\ R.r = T.n /\ w' = Walk
  \/ Is("CSub") /\ w' = w /\ (IF Exists(w[R.l], R.path) THEN ~R.err /\ R.r = T.n ELSE R.err)
  \/ Is("IsType") /\ w' = Walk /\ (IF R.key \in DOMAIN T.p THEN ~R.err /\ R.yes = (T.p[R.key].ty = R.ty) ELSE R.err)
  \/ Is("Copy") /\ ~R.err /\ w' = [W2 EXCEPT ![R.l] = Src]
  \/ Is("Assign") /\ ~R.err /\ (LET v == [W2 EXCEPT ![R.l] = Put(W2[R.l], R.path, At(W2[R.l], R.path))] IN w' = [v EXCEPT ![R.l] = Put(v[R.l], R.path, At(v[R.l2], R.path2))])
  \* the source as it is when the call is made, also if one is part of the other
  \/ Is("Import") /\ ~R.err /\ (LET v == [W2 EXCEPT ![R.l] = Put(W2[R.l], R.path, At(W2[R.l], R.path))] IN w' = [v EXCEPT ![R.l] = Put(v[R.l], R.path, Import(At(v[R.l], R.path), At(v[R.l2], R.path2)))])
  \/ Is("Rename") /\ ~R.err /\ Upd([T EXCEPT !.n = R.v])
  \/ /\ Is("Print") /\ w' = w
     /\ IF ~Exists(w[R.l], R.path) THEN R.err
        ELSE /\ ~R.err /\ Len(R.lines) = CountAll(T)
             /\ Told(T, 0, R.lines)
RECURSIVE Match(_, _)
Match(t, d) == /\ DOMAIN d = {"n", "p", "s"} /\ t.n = d.n
               /\ DOMAIN t.p = DOMAIN d.p /\ \A k \in DOMAIN t.p : t.p[k] = d.p[k]
               /\ DOMAIN t.s = DOMAIN d.s /\ \A k \in DOMAIN t.s : Match(t.s[k], d.s[k])
Next == Step /\ \A i \in DOMAIN w' : Match(w'[i], R.dump[i])
Spec == Init /\ [][Next]_<<l, w>>
=============================================================================
