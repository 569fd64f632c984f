------------------------------- MODULE Types -------------------------------
(* Lists of types as sequences of names, maps keyed by types as functions  *)
(* from names to values, and types built from a base by pointers, arrays   *)
(* and qualifiers as sequences, outermost constructor first.               *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE PosFrom(_, _, _)
PosFrom(t, ts, i) == IF i > Len(ts) THEN -1 ELSE IF ts[i] = t THEN i - 1 ELSE PosFrom(t, ts, i + 1)
FirstOf(t, ts) == PosFrom(t, ts, 1)
Unique(ts) == \A i, j \in DOMAIN ts : ts[i] = ts[j] => i = j
Apply(p, ts) == [i \in DOMAIN ts |-> p \o ts[i]]
\* a loop that stops at the first type where the body says so (0: never)
Visited(ts, stop) == IF \E i \in DOMAIN ts : ts[i] = stop THEN SubSeq(ts, 1, FirstOf(stop, ts) + 1) ELSE ts
MapOk(ks, vs) == Len(ks) > 0 /\ Len(ks) = Len(vs) /\ Unique(ks)
At(ks, vs, k) == IF FirstOf(k, ks) < 0 THEN "none" ELSE vs[FirstOf(k, ks) + 1]
RECURSIVE Write(_, _, _)
Write(ks, m, w) == IF w = <<>> THEN m ELSE Write(ks, [m EXCEPT ![FirstOf(w[1].k, ks) + 1] = w[1].v], Tail(w))
HasV(vs, m, t, v) == \E i \in DOMAIN vs : vs[i] = t /\ m[i] = v
\* built types
Ptr == {"ptr", "cptr"}
RECURSIVE NoPtr(_)
NoPtr(d) == IF Head(d) \in Ptr THEN NoPtr(Tail(d)) ELSE d
RECURSIVE NoConst(_)
NoConst(d) == IF Head(d) \in Ptr THEN <<"ptr">> \o NoConst(Tail(d)) ELSE IF Head(d) = "const" THEN Tail(d) ELSE d
RECURSIVE NoArr(_)
NoArr(d) == IF Head(d) = "arr" THEN NoArr(Tail(d)) ELSE d
Value(d) == NoPtr(NoArr(IF Head(d) = "ref" THEN Tail(d) ELSE d))
Rank(d) == Cardinality({i \in DOMAIN d : d[i] \in {"ptr", "arr"}})
RankDyn(d) == Cardinality({i \in DOMAIN d : d[i] = "ptr"})
Plain(d) == SelectSeq(d, LAMBDA x : x \notin {"const", "volatile", "ref", "rref"})
=============================================================================
