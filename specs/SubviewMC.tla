----------------------------- MODULE SubviewMC -----------------------------
(* Any chain of subviews of a dense view.  map tells, for every dimension of *)
(* the original, the fixed index or the dimension and shift it comes from.   *)
EXTENDS Subview, TLC
CONSTANTS MaxRank, MaxExt
VARIABLES v, org, map, strided
vars == <<v, org, map, strided>>
Exts == UNION {[1..r -> 1..MaxExt] : r \in 1..MaxRank}
Pads == {0, 1}
\* the first stride may be larger than the rest needs (padding)
Init == \E e \in Exts, p \in Pads : /\ org = [Dense(0, e) EXCEPT !.str[1] = @ + p] /\ v = org /\ map = [k \in 1..Len(e) |-> <<"dim", k, 0>>] /\ strided = FALSE
Orig(i) == [k \in DOMAIN map |-> IF map[k][1] = "fix" THEN map[k][2] ELSE i[map[k][2]] + map[k][3]]
\* dimension j of v gone with index i
Gone(m, j, i) == [k \in DOMAIN m |-> IF m[k][1] = "fix" THEN m[k] ELSE IF m[k][2] = j THEN <<"fix", i + m[k][3], 0>> ELSE IF m[k][2] > j THEN <<"dim", m[k][2] - 1, m[k][3]>> ELSE m[k]]
RECURSIVE GoneAll(_, _)
GoneAll(m, i) == IF i = <<>> THEN m ELSE GoneAll(Gone(m, 1, Head(i)), Tail(i))
Ranks == Len(v.ext)
DoFix == ~strided /\ Ranks >= 1 /\ \E n \in 1..(IF Ranks = 1 THEN 1 ELSE Ranks - 1) : \E i \in [1..n -> 0..(MaxExt - 1)] : FixOk(v, i) /\ v' = Fix(v, i) /\ map' = GoneAll(map, i) /\ UNCHANGED <<org, strided>>
DoSecond == ~strided /\ Ranks >= 2 /\ \E i \in 0..(MaxExt - 1) : SecondOk(v, i) /\ v' = Second(v, i) /\ map' = Gone(map, 2, i) /\ strided' = (Ranks = 2) /\ UNCHANGED org
DoRange == ~strided /\ Ranks >= 1 /\ \E d \in 1..Ranks, a, b \in 0..MaxExt : RangeOk(v, d, a, b) /\ v' = Range(v, d, a, b) /\ strided' = TRUE /\ UNCHANGED org
             /\ map' = [k \in DOMAIN map |-> IF map[k][1] = "dim" /\ map[k][2] = d THEN <<"dim", d, map[k][3] + a>> ELSE map[k]]
Next == DoFix \/ DoSecond \/ DoRange
Spec == Init /\ [][Next]_vars
\* an element of the subview is the element of the original at the full index, which exists; different indices, different elements
Same == \A i \in Indices(v) : Addr(v, i) = Addr(org, Orig(i)) /\ \A k \in DOMAIN org.ext : Orig(i)[k] < org.ext[k]
Distinct == Cardinality({Addr(v, i) : i \in Indices(v)}) = Size(v)
\* whatever is not said to be strided can be a LayoutRight view with the first stride given; so is the result of fixing first indices with the natural stride
Right == ~strided => IsRight(v)
=============================================================================
