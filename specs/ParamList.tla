----------------------------- MODULE ParamList ------------------------------
(* A tree of parameter lists: name, typed parameters, sublists (C05, C07).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Nil == [x \in {} |-> 0]
New(name) == [n |-> name, p |-> Nil, s |-> Nil]
Set(t, k, v) == [t EXCEPT !.p = (k :> v) @@ @]
\* the list at a path, creating what is missing on the way (as the non-const accessor does)
RECURSIVE At(_, _)
At(t, path) == IF path = <<>> THEN t
               ELSE At(IF Head(path) \in DOMAIN t.s THEN t.s[Head(path)] ELSE New(Head(path)), Tail(path))
RECURSIVE Exists(_, _)
Exists(t, path) == path = <<>> \/ (Head(path) \in DOMAIN t.s /\ Exists(t.s[Head(path)], Tail(path)))
RECURSIVE Put(_, _, _)
Put(t, path, sub) == IF path = <<>> THEN sub
                     ELSE [t EXCEPT !.s = (Head(path) :> Put(IF Head(path) \in DOMAIN t.s THEN t.s[Head(path)] ELSE New(Head(path)), Tail(path), sub)) @@ @]
\* import: entries of the source are added, those of the same name overwritten, sublists merged
RECURSIVE Import(_, _)
Import(d, s) == [n |-> d.n, p |-> s.p @@ d.p,
                 s |-> [k \in DOMAIN d.s \cup DOMAIN s.s |->
                        IF k \notin DOMAIN s.s THEN d.s[k]
                        ELSE LET b == IF k \in DOMAIN d.s THEN d.s[k] ELSE New(k) IN [Import(b, s.s[k]) EXCEPT !.n = s.s[k].n]]]
IsVec(ty) == ty \in {"vi", "vd", "vs", "vb"}
\* reading with a type: what is stored, an empty vector for the empty sequence, otherwise an error
Readable(v, ty) == v.ty = ty \/ (v.ty = "es" /\ IsVec(ty))
\* a non-const read of the empty sequence gives it the type asked for
ReadFix(v, ty) == IF v.ty = "es" /\ IsVec(ty) THEN [ty |-> ty, v |-> ""] ELSE v
=============================================================================
