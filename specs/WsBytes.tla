------------------------------ MODULE WsBytes -------------------------------
(* Conformance of the memory of a workspace manager of any size (C01, C02).  *)
(*                                                                           *)
(* Byte counts do not fit TLC's integers: they are pairs <<q, r>> that stand *)
(* for 65536 q + r.                                                          *)
EXTENDS TraceCommon
VARIABLE l
B == 65536
R == Trace[l]
Init == l = 1

Num(n) == <<n \div B, n % B>>
Add(a, b) == LET r == a[2] + b[2] IN <<a[1] + b[1] + r \div B, r % B>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
RECURSIVE Times(_, _)
Times(a, k) == IF k = 0 THEN <<0, 0>> ELSE Add(a, Times(a, k - 1))
Known(a) == a[1] >= 0

\* a block of the manager holds `size` elements
Block == Times(Num(R.size), R.ts)

\* what the query returns is what the manager allocates (up to the alignment
\* of an allocation), enough for at least the blocks of one workspace
Memory == /\ Known(R.need) /\ Known(R.bytes)
          /\ Leq(R.need, R.bytes) /\ Leq(R.bytes, Add(R.need, <<0, 7>>))
          /\ Leq(Times(Block, R.cap), R.need)
Inside(i) == Known(R.off[i]) /\ Leq(Add(R.off[i], R.len[i]), R.need)
Apart(i, j) == Leq(Add(R.off[i], R.len[i]), R.off[j]) \/ Leq(Add(R.off[j], R.len[j]), R.off[i])
Blocks == /\ \A i \in DOMAIN R.off : R.len[i] = Block /\ Inside(i) /\ R.kept[i]
          /\ \A i, j \in DOMAIN R.off : i < j => Apart(i, j)

Big == l <= Len(Trace) /\ R.event = "Big" /\ l' = l + 1 /\ Memory /\ Blocks
Next == Big
Spec == Init /\ [][Next]_l
=============================================================================
