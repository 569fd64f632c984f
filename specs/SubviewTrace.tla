---------------------------- MODULE SubviewTrace ----------------------------
EXTENDS Subview, TraceCommon
VARIABLES vs, l
vars == <<vs, l>>
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ vs = <<>>
V == vs[R.from]
\* the recorded addresses (in elements from the start of the allocation) and extents are those of view x
Holds(x) == R.ext = x.ext /\ R.addr = Addrs(x)
Put(x) == Holds(x) /\ vs' = Append(SubSeq(vs, 1, R.from), x)
New == Is("New") /\ LET d == Dense(0, R.ext)  x == [d EXCEPT !.str = IF Len(R.ext) = 0 THEN <<>> ELSE [d.str EXCEPT ![1] = R.s0]] IN Holds(x) /\ vs' = <<x>>
SFix == Is("Fix") /\ FixOk(V, R.i) /\ Put(Fix(V, R.i))
SSecond == Is("Second") /\ SecondOk(V, R.i) /\ Put(Second(V, R.i))
SRange == Is("Range") /\ RangeOk(V, R.d, R.a, R.b) /\ Holds(Range(V, R.d, R.a, R.b)) /\ UNCHANGED vs
\* a request is refused exactly when it is out of range
Bad == Is("Try") /\ R.refused = ~(CASE R.op = "fix" -> FixOk(V, R.i) [] R.op = "second" -> SecondOk(V, R.i[1]) [] R.op = "range" -> RangeOk(V, R.i[1], R.i[2], R.i[3])) /\ UNCHANGED vs
\* the elements of a view with no gaps, seen with other extents: the order in memory stays
Reshape == Is("Reshape") /\ LET n == Prod(R.to, 1) IN R.refused = (n # Prod(R.old, 1)) /\ (~R.refused => R.ext = R.to /\ R.addr = [k \in 1..n |-> k - 1]) /\ UNCHANGED vs
Next == New \/ SFix \/ SSecond \/ SRange \/ Bad \/ Reshape
Spec == Init /\ [][Next]_vars
=============================================================================
