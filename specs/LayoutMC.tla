------------------------------ MODULE LayoutMC ------------------------------
(* All views of memories up to MaxSize, related by reinterpretation.         *)
EXTENDS Layout, TLC
CONSTANTS MaxSize, MaxRank
NS == {0, 1, 2, 4}
\* the memory seen (v), a view of it (u), the same view made of other elements (w)
VARIABLES v, u, w, how
vars == <<v, u, w, how>>
Exts(r) == {e \in [1..r -> 1..MaxSize] : Prod([i \in 1..r |-> e[i]]) <= MaxSize}
Proper == UNION {{Whole(n, [i \in 1..r |-> e[i]]) : n \in NS, e \in Exts(r)} : r \in 0..MaxRank}
Init == v \in {x \in Proper : Size(x) <= MaxSize} /\ u = v /\ w = v /\ how = "start"
Next == \/ w' = Scalarize(w) /\ how' = "scalarize" /\ UNCHANGED <<v, u>>
        \/ \E m \in {2, 4} : CanRepack(w, m) /\ w' = Repack(w, m) /\ how' = "repack" /\ UNCHANGED <<v, u>>
        \/ how = "start" /\ Len(v.ext) >= 3 /\ \E i \in 0..(v.ext[2] - 1) : u' = SliceOf(v, i) /\ w' = u' /\ how' = "slice" /\ UNCHANGED v
Spec == Init /\ [][Next]_vars
\* indices and scalars are in bijection
Elements(x) == {<<Unlin(x.ext, k), l>> : k \in 0..(Prod(x.ext) - 1), l \in 0..(Width(x.n) - 1)}
Bijective == LET E == Elements(w)  A == {Addr(w, e[1], e[2]) : e \in E} IN
   Cardinality(E) = Size(w) /\ Cardinality(A) = Size(w) /\ A \subseteq 0..(Size(v) - 1) /\ (u = v => A = 0..(Size(v) - 1))
\* a slice keeps the elements it names
Slices == how = "slice" => \E i \in 0..(v.ext[2] - 1) : \A e \in Elements(w) : Addr(w, e[1], e[2]) = Addr(v, <<e[1][1], i>> \o SubSeq(e[1], 2, Len(e[1])), e[2])
\* the memory seen does not change
SameMemory == {Addr(w, e[1], e[2]) : e \in Elements(w)} = {Addr(u, e[1], e[2]) : e \in Elements(u)}
\* no scalar is lost or added
SameSize == Size(w) = Size(u)
\* the scalar at (idx, lane) is the one at (.., k*n+lane) of the scalarized view; repacking and scalarizing are inverse
Same == w.ext # <<>> => \A e \in Elements(w) : Addr(w, e[1], e[2]) = Addr(Scalarize(w), [e[1] EXCEPT ![Len(e[1])] = @ * Width(w.n) + e[2]], 0)
Inverse == w.n > 1 /\ w.ext # <<>> => Repack(Scalarize(w), w.n) = w
\* each index of an array is in one pack, within the range of that pack
Packs == \A n \in {1, 2, 4}, len \in 1..MaxSize : {k * n + j : k \in 0..(NumPacks(n, len) - 1), j \in 0..(n - 1)} \cap 0..(len - 1)
            = UNION {{k * n + j : j \in 0..(VecEnd(n, len, k) - 1)} : k \in 0..(NumPacks(n, len) - 1)} /\ Padding(n, len) \in 0..(n - 1)
=============================================================================
