------------------------------ MODULE TypesMC ------------------------------
EXTENDS Types, TLC
CONSTANTS T, L
VARIABLES ts, us, stop, d
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == ts \in Seqs(T, L) /\ us \in Seqs(T, 2) /\ stop \in T /\ d \in Seqs({"ptr", "cptr"}, 4)
Next == UNCHANGED <<ts, us, stop, d>>
Spec == Init /\ [][Next]_<<ts, us, stop, d>>
Lists == \A t \in T :
  /\ (FirstOf(t, ts) >= 0 <=> \E i \in DOMAIN ts : ts[i] = t)
  /\ FirstOf(t, ts \o us) = (IF FirstOf(t, ts) >= 0 THEN FirstOf(t, ts) ELSE IF FirstOf(t, us) >= 0 THEN Len(ts) + FirstOf(t, us) ELSE -1)
  /\ (Unique(ts) <=> Cardinality({ts[i] : i \in DOMAIN ts}) = Len(ts))
  /\ (Unique(ts \o us) => (Unique(ts) /\ Unique(us)))
Stops == LET v == Visited(ts, stop) IN v = SubSeq(ts, 1, Len(v)) /\ (Len(v) < Len(ts) => v[Len(v)] = stop) /\ \A i \in 1..Len(v) - 1 : v[i] # stop
D == d \o (IF stop = "a" THEN <<"const", "x">> ELSE <<"x">>)
Built == /\ Len(NoConst(D)) <= Len(D) /\ NoConst(NoConst(D)) = NoConst(D) /\ NoPtr(NoPtr(D)) = NoPtr(D) /\ RankDyn(D) <= Rank(D)
         /\ Rank(NoConst(D)) = Len(d)
=============================================================================
