---------------------------- MODULE ReduceTrace ----------------------------
EXTENDS Reduce, TraceCommon
VARIABLE l
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1
Same(s) == \A k \in DOMAIN s : s[k] = s[1]
\* one word per thread
Word == /\ Is("Word") /\ Len(R.w) = R.team * R.league
        /\ \A k \in DOMAIN R.w : /\ Perms(R.w[k], R.b, R.e)
                                 /\ R.serial => R.w[k] = Run(R.b, R.e)
                                 /\ R.w[k] = R.w[((k - 1) \div R.team) * R.team + 1]
\* one sum per thread; the range, its order, nothing but the range
View == /\ Is("View") /\ Len(R.r) = R.team * R.league
        /\ \A k \in DOMAIN R.r : R.r[k] = Sum(R.t, R.a, R.b, R.e)
        /\ {R.touched[k] : k \in DOMAIN R.touched} \subseteq Packs(R.n, R.b, R.e)
Next == Word \/ View
Spec == Init /\ [][Next]_l
=============================================================================
