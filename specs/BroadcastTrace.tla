--------------------------- MODULE BroadcastTrace ---------------------------
EXTENDS Broadcast, TraceCommon
VARIABLES s, a, x, l
vars == <<s, a, x, l>>
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ s = <<>> /\ a = <<>> /\ x = <<>>
\* a source: its extents and where its elements are
New == Is("New") /\ s' = R.ext /\ a' = R.addr /\ UNCHANGED x
\* a broadcast to rank n with extents x, refused or made
Make == Is("Make") /\ R.refused = ~Ok(s, R.n, R.x) /\ x' = (IF R.refused THEN x ELSE R.x) /\ UNCHANGED <<s, a>>
Look == Is("Look") /\ R.ext = Shape(s, x) /\ R.addr = Elems(s, a, x) /\ UNCHANGED <<s, a, x>>
\* the elements at some indices, where there are too many for all
Extents == Is("Extents") /\ R.ext = Shape(s, x) /\ UNCHANGED <<s, a, x>>
Peek == Is("Peek") /\ R.addr = [k \in DOMAIN R.idx |-> ElemAt(s, a, x, R.idx[k])] /\ UNCHANGED <<s, a, x>>
\* asking for the extent of a dimension from 0, in debug builds
Extent == Is("Extent") /\ R.refused = ~(R.d \in 0..(Len(x) - 1)) /\ UNCHANGED <<s, a, x>>
Next == New \/ Extents \/ Peek \/ Make \/ Look \/ Extent
Spec == Init /\ [][Next]_vars
=============================================================================
