---------------------------- MODULE BroadcastMC ----------------------------
EXTENDS Broadcast, TLC
CONSTANTS MaxRank, MaxExt
VARIABLES s, x, a
vars == <<s, x, a>>
\* a source, and up to two broadcasts of it, one after the other
N(sh) == Prod(sh, 1)
Init == \E r \in 1..MaxRank : \E e \in [1..r -> 1..MaxExt] : s = <<e>> /\ x = <<>> /\ a = <<[k \in 1..N(e) |-> k]>>
Next == Len(x) < 2 /\ \E r \in Len(s[Len(s)])..MaxRank : \E y \in [1..r -> 0..MaxExt] : Ok(s[Len(s)], r, y) /\ x' = Append(x, y) /\ s' = Append(s, Shape(s[Len(s)], y)) /\ a' = Append(a, Elems(s[Len(s)], a[Len(a)], y))
Spec == Init /\ [][Next]_vars
L == Len(s)
Count(q, v) == Cardinality({k \in DOMAIN q : q[k] = v})
Added(y) == Prod([k \in DOMAIN y |-> IF y[k] <= 0 THEN 1 ELSE y[k]], 1)
\* every element as often as there are new indices
Often == L > 1 => \A k \in 1..N(s[1]) : Count(a[L], k) = Count(a[L - 1], k) * Added(x[L - 1])
\* the value does not depend on the new indices, and is the source's where the others agree
Constant == L > 1 => LET sh == s[L]  y == x[L - 1] IN \A i, j \in Indices(Dense(0, sh)) : (\A k \in Kept(y) : i[k] = j[k]) => a[L][Pos(sh, i)] = a[L][Pos(sh, j)]
Zero == L > 1 => \A i \in Indices(Dense(0, s[L - 1])) : LET y == x[L - 1]  full == [k \in DOMAIN y |-> IF y[k] <= 0 THEN i[Behind(y, k)] ELSE 0] IN a[L][Pos(s[L], full)] = a[L - 1][Pos(s[L - 1], i)]
Same == L > 1 /\ Len(s[L]) = Len(s[L - 1]) => a[L] = a[L - 1]
\* two broadcasts are one
One == L = 3 => LET y == x[1]  z == x[2]  w == [k \in DOMAIN z |-> IF z[k] > 0 THEN z[k] ELSE y[Behind(z, k)]] IN Ok(s[1], Len(w), w) /\ Shape(s[1], w) = s[3] /\ Elems(s[1], a[1], w) = a[3]
=============================================================================
