---------------------------- MODULE ParamListMC -----------------------------
(* Two lists under every short history; and the laws of copy and import.     *)
EXTENDS ParamList
CONSTANTS Depth
VARIABLES a, b, shadow
\* shadow: what a reader of list a expects at <<path, key>>, kept by the plain rule "last value stored"
vars == <<a, b, shadow>>
Keys == {"k", "l"}
Paths == {<<>>, <<"s">>, <<"s", "t">>}
Vals == {[ty |-> "i", v |-> "1"], [ty |-> "s", v |-> "1"]}
Init == a = New("a") /\ b = New("b") /\ shadow = [x \in Paths \X Keys |-> [ty |-> "", v |-> ""]]
SetA(p, k, v) == a' = Put(a, p, Set(At(a, p), k, v)) /\ shadow' = [shadow EXCEPT ![<<p, k>>] = v] /\ b' = b
SetB(p, k, v) == b' = Put(b, p, Set(At(b, p), k, v)) /\ UNCHANGED <<a, shadow>>
Lookup(t, p, k) == IF Exists(t, p) /\ k \in DOMAIN At(t, p).p THEN At(t, p).p[k] ELSE [ty |-> "", v |-> ""]
Assign == a' = b /\ b' = b /\ shadow' = [x \in Paths \X Keys |-> Lookup(b, x[1], x[2])]
Imp == a' = Import(a, b) /\ b' = b /\ shadow' = [x \in Paths \X Keys |-> LET y == Lookup(b, x[1], x[2]) IN IF y.ty = "" THEN shadow[x] ELSE y]
Next == \/ \E p \in Paths, k \in Keys, v \in Vals : SetA(p, k, v) \/ SetB(p, k, v)
        \/ Assign \/ Imp
Spec == Init /\ [][Next]_vars
Bounded == TLCGet("level") <= Depth
Agrees == \A x \in Paths \X Keys : Lookup(a, x[1], x[2]) = shadow[x]
Same(x, y) == x.p = y.p /\ x.s = y.s
Laws == /\ Same(Import(a, a), a) /\ Same(Import(New("x"), a), a) /\ Import(a, New("x")) = a
        /\ Import(Import(a, b), b) = Import(a, b)
        /\ DOMAIN Import(a, b).p = DOMAIN a.p \cup DOMAIN b.p
        /\ \A p \in Paths : Exists(a, p) => Put(a, p, At(a, p)) = a
=============================================================================
