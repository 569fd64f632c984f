-------------------------------- MODULE Xfer --------------------------------
(* Host arrays (sequences of scalars) and device views.  A view has extents  *)
(* in scalars, dims = <<d1,..,dr>>, and a pack length n: it holds            *)
(* d1*..*d(r-1) rows of P(dr) scalars, dr rounded up to a multiple of n.     *)
(* A transfer copies arrays to or from views.  A transposed array is in      *)
(* column-major order ("f") instead of row-major ("c").                      *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k - 1)
Prod(s) == ProdTo(s, Len(s))
RECURSIVE LinTo(_, _, _)
LinTo(d, i, k) == IF k = 0 THEN 0 ELSE LinTo(d, i, k - 1) * d[k] + i[k]
Row(d, i) == LinTo(d, i, Len(d))
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Col(d, i) == Row(Rev(d), Rev(i))
Unrow(d, k) == [m \in DOMAIN d |-> (k \div Prod(SubSeq(d, m + 1, Len(d)))) % d[m]]
Uncol(d, k) == Rev(Unrow(Rev(d), k))
(* the first Prod(d) entries of a in the other order *)
Transposed(a, d, dir) == [k \in 1..Prod(d) |-> IF dir = "c2f" THEN a[Row(d, Uncol(d, k - 1)) + 1] ELSE a[Col(d, Unrow(d, k - 1)) + 1]]
Up(x, n) == ((x + n - 1) \div n) * n
PadDims(d, n) == [d EXCEPT ![Len(d)] = Up(@, n)]
Inside(d, i) == \A m \in DOMAIN d : i[m] < d[m]
Ordered(a, d, t, dir) == IF t THEN Transposed(a, d, dir) ELSE a
(* a view of extents d after receiving the array a; old: its content before, entries outside d keep theirs *)
Received(a, d, n, t, dir, old) ==
  LET p == PadDims(d, n)  src == Ordered(a, d, t, dir) IN
  [k \in 1..Prod(p) |-> LET i == Unrow(p, k - 1) IN IF Inside(d, i) THEN src[Row(d, i) + 1] ELSE old[k]]
(* the array a after receiving the elements within d of a view v *)
Gathered(v, d) == LET p == PadDims(v.dims, v.n) IN [k \in 1..Prod(d) |-> v.mem[Row(p, Unrow(d, k - 1)) + 1]]
Sent(v, d, t, dir, a) == LET src == Ordered(Gathered(v, d), d, t, dir) IN [k \in DOMAIN a |-> IF k <= Prod(d) THEN src[k] ELSE a[k]]
=============================================================================
