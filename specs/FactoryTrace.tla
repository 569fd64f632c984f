---------------------------- MODULE FactoryTrace ----------------------------
EXTENDS Factory, TraceCommon
VARIABLES l, reg
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ reg = <<>>
G == reg[R.f]
Sizes == \A f \in DOMAIN reg' : R.sizes[f] = Cardinality(DOMAIN reg'[f])
Same == reg' = reg
Step ==
  \/ Is("New") /\ reg' = [f \in 1..R.n |-> Nil]
  \/ Is("Register") /\ R.calls = 0 /\ R.r = Registered(G, R.k, R.replace)
     /\ reg' = [reg EXCEPT ![R.f] = Register(@, R.k, R.key, R.c, R.replace)]
  \/ Is("Has") /\ R.calls = 0 /\ R.r = Has(G, R.k) /\ Same
  \/ Is("Create") /\ Same
     /\ IF Has(G, R.k) THEN ~R.err /\ R.calls = 1 /\ R.c = G[R.k].c /\ R.got = R.args
        ELSE /\ R.err /\ R.calls = 0
             /\ DOMAIN G # {} => R.named /\ \A k \in DOMAIN G : \E i \in DOMAIN R.listed : R.listed[i] = G[k].key
  \/ Is("Clean") /\ R.calls = 0 /\ reg' = [reg EXCEPT ![R.f] = Nil]
Next == Step /\ Sizes
Spec == Init /\ [][Next]_<<l, reg>>
=============================================================================
