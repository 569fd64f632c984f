------------------------------ MODULE Subview ------------------------------
(* A view of rank r: where element (0,..,0) is, the extents and the strides. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Prod(_, _)
Prod(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * Prod(s, k + 1)
Size(v) == Prod(v.ext, 1)
\* LayoutRight: the last index is contiguous
Dense(b, e) == [base |-> b, ext |-> e, str |-> [k \in 1..Len(e) |-> Prod(e, k + 1)]]
RECURSIVE Dot(_, _, _)
Dot(i, s, k) == IF k > Len(i) THEN 0 ELSE i[k] * s[k] + Dot(i, s, k + 1)
Addr(v, i) == v.base + Dot(i, v.str, 1)
Indices(v) == {i \in [1..Len(v.ext) -> 0..5] : \A k \in DOMAIN i : i[k] < v.ext[k]}
\* the multi-index of the e-th element (from 0) in row-major order
Nth(v, e) == [k \in 1..Len(v.ext) |-> (e \div Prod(v.ext, k + 1)) % v.ext[k]]
Addrs(v) == [e \in 1..Size(v) |-> Addr(v, Nth(v, e - 1))]
In(v, k, i) == k \in 1..Len(v.ext) /\ 0 <= i /\ i < v.ext[k]
\* the first indices fixed
FixOk(v, i) == Len(i) <= Len(v.ext) /\ \A k \in DOMAIN i : In(v, k, i[k])
Fix(v, i) == LET n == Len(i) IN [base |-> v.base + Dot(i, v.str, 1), ext |-> SubSeq(v.ext, n + 1, Len(v.ext)), str |-> SubSeq(v.str, n + 1, Len(v.str))]
\* the second index fixed
SecondOk(v, i) == Len(v.ext) >= 2 /\ In(v, 2, i)
Drop(s) == <<s[1]>> \o SubSeq(s, 3, Len(s))
Second(v, i) == [base |-> v.base + i * v.str[2], ext |-> Drop(v.ext), str |-> Drop(v.str)]
\* the indices a..b-1 of dimension d, from 1
RangeOk(v, d, a, b) == d \in 1..Len(v.ext) /\ 0 <= a /\ a < b /\ b <= v.ext[d]
Range(v, d, a, b) == [base |-> v.base + a * v.str[d], ext |-> [v.ext EXCEPT ![d] = b - a], str |-> v.str]
\* what a LayoutRight view can be: all strides but the first follow from the extents
IsRight(v) == \A k \in 2..Len(v.ext) : v.str[k] = Prod(v.ext, k + 1)
=============================================================================
