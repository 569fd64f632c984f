------------------------------- MODULE Layout -------------------------------
(* Views of one memory, an array of scalars.  A view has extents and a pack  *)
(* length n (0: its elements are scalars); the element at a multi-index is a *)
(* row of Max(n,1) scalars, elements follow each other in row-major order,   *)
(* except that a view of two or more ranks may skip pad scalars after each   *)
(* of its outermost rows: a slice of a larger view.  It starts at off.       *)
EXTENDS Integers, Sequences, FiniteSets
Width(n) == IF n = 0 THEN 1 ELSE n
RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k - 1)
Prod(s) == ProdTo(s, Len(s))
Size(v) == Prod(v.ext) * Width(v.n)
\* row-major number of a multi-index
RECURSIVE LinTo(_, _, _)
LinTo(ext, idx, k) == IF k = 0 THEN 0 ELSE LinTo(ext, idx, k - 1) * ext[k] + idx[k]
Lin(ext, idx) == LinTo(ext, idx, Len(ext))
\* the scalar (from 0) behind lane of the element at idx
Addr(v, idx, lane) == v.off + Lin(v.ext, idx) * Width(v.n) + lane + (IF v.ext = <<>> THEN 0 ELSE idx[1] * v.pad)
Whole(n, ext) == [n |-> n, ext |-> ext, off |-> 0, pad |-> 0]
\* views of two or more ranks, v[:, i, ...]
SliceOf(v, i) == [n |-> v.n, ext |-> [d \in 1..(Len(v.ext) - 1) |-> IF d = 1 THEN v.ext[1] ELSE v.ext[d + 1]],
                  off |-> v.off + i * Prod(SubSeq(v.ext, 3, Len(v.ext))) * Width(v.n),
                  pad |-> v.pad + (v.ext[2] - 1) * Prod(SubSeq(v.ext, 3, Len(v.ext))) * Width(v.n)]
\* the multi-index with row-major number k
Unlin(ext, k) == [d \in 1..Len(ext) |-> (k \div Prod(SubSeq(ext, d + 1, Len(ext)))) % ext[d]]
ScaleLast(ext, num, den) == [ext EXCEPT ![Len(ext)] = (@ * num) \div den]
Scalarize(v) == IF v.n = 0 THEN v
                ELSE [v EXCEPT !.n = 0, !.ext = IF v.ext = <<>> THEN <<v.n>> ELSE ScaleLast(v.ext, v.n, 1)]
\* rows of packs must start at a pack
CanRepack(v, m) == v.ext # <<>> /\ (v.ext[Len(v.ext)] * Width(v.n)) % m = 0 /\ v.pad % m = 0
Repack(v, m) == [v EXCEPT !.n = m, !.ext = ScaleLast(v.ext, Width(v.n), m)]
Reshape(v, ext) == [v EXCEPT !.ext = ext]
(* packs of an array of len scalars *)
NumPacks(n, len) == (len + n - 1) \div n
Padding(n, len) == NumPacks(n, len) * n - len
LastEnd(n, len) == n - Padding(n, len)
VecEnd(n, len, k) == IF k + 1 < NumPacks(n, len) THEN n ELSE LastEnd(n, len)
(* differences of adjacent entries, where an entry beyond the ends counts as 0 *)
Fwd(a, k) == (IF k < Len(a) THEN a[k + 1] ELSE 0) - a[k]
Bwd(a, k) == a[k] - (IF k > 1 THEN a[k - 1] ELSE 0)
Flat(ps) == LET n == Len(ps[1]) IN [k \in 1..(Len(ps) * n) |-> ps[((k - 1) \div n) + 1][((k - 1) % n) + 1]]
(* data types as written, outermost first: "ptr", numbers for arrays, then the value: <<S, n>> (n=0: no pack) *)
ScalarDims(dims, n) == \* dims without pointers; the innermost static one takes the pack
  [i \in DOMAIN dims |-> IF i = Len(dims) THEN dims[i] * Width(n) ELSE dims[i]]
=============================================================================
