----------------------------- MODULE Broadcast -----------------------------
(* A view seen with more dimensions: where the extents asked for are not     *)
(* positive, the dimensions of the source come in order; the others are new. *)
EXTENDS Subview
Kept(x) == {k \in DOMAIN x : x[k] <= 0}
\* what can be asked of a source with extents s, for rank r
Ok(s, r, x) == Len(s) >= 1 /\ Len(s) <= r /\ Len(x) = r /\ Cardinality(Kept(x)) = Len(s)
\* the dimension of the source behind dimension k
Behind(x, k) == Cardinality({j \in Kept(x) : j <= k})
Shape(s, x) == [k \in DOMAIN x |-> IF x[k] <= 0 THEN s[Behind(x, k)] ELSE x[k]]
\* the dimension that shows the j-th one of the source
Shown(x, j) == CHOOSE k \in Kept(x) : Behind(x, k) = j
\* the index in the source
Source(s, x, i) == [j \in DOMAIN s |-> i[Shown(x, j)]]
\* the position, from 1, of an index in row-major order
Pos(s, i) == 1 + Dot(i, [k \in DOMAIN s |-> Prod(s, k + 1)], 1)
\* given the elements of the source in row-major order, those of the broadcast
ElemAt(s, a, x, i) == a[Pos(s, Source(s, x, i))]
Elems(s, a, x) == LET sh == Shape(s, x)  v == Dense(0, sh) IN [e \in 1..Prod(sh, 1) |-> a[Pos(s, Source(s, x, Nth(v, e - 1)))]]
=============================================================================
