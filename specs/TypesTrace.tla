---------------------------- MODULE TypesTrace ----------------------------
EXTENDS Types, TraceCommon
VARIABLES l
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1
ListOk == /\ R.size = Len(R.ts) /\ R.get = R.ts
          /\ \A i \in DOMAIN R.names : R.pos[i] = FirstOf(R.names[i], R.ts)
          /\ R.unique = Unique(R.ts)
          /\ R.apply = Apply("C:", R.ts)
          /\ R.visited = R.ts
          /\ \A i \in DOMAIN R.names : R.stopped[i] = Visited(R.ts, R.names[i])
          /\ \A i \in DOMAIN R.others : R.others[i] = R.ts         \* only a bool stops the loop
          /\ R.mixed = Visited(R.ts, "float") /\ R.own = R.ts
MapOk1 == LET m == Write(R.ks, [i \in DOMAIN R.ks |-> 0], R.writes) IN
          /\ R.size = Len(R.ks)
          /\ R.at_t = [i \in DOMAIN R.names |-> At(R.ks, R.vs, R.names[i])]
          /\ R.has_t = [i \in DOMAIN R.names |-> FirstOf(R.names[i], R.ks) >= 0]
          /\ R.read = m /\ R.cread = m
          /\ \A i \in DOMAIN R.asked : R.asked[i].r = HasV(R.vs, m, R.asked[i].t, R.asked[i].v)
Step ==
  \/ Is("List") /\ ListOk
  \/ Is("Cat") /\ R.r = R.a \o R.b /\ R.size = Len(R.r)
  \/ Is("Map") /\ MapOk(R.ks, R.vs) /\ MapOk1
  \/ Is("Program") /\ R.compiles = (MapOk(R.ks, R.vs) /\ (R.at = "" \/ FirstOf(R.at, R.ks) >= 0))
  \/ Is("Pointers") /\ R.r = NoPtr(R.d)
  \/ Is("Consts") /\ R.r = NoConst(R.d)
  \/ Is("Value") /\ R.r = Value(R.d)
  \/ Is("Ranks") /\ R.rank = Rank(R.d) /\ R.dyn = RankDyn(R.d)
  \/ Is("DataND") /\ R.r = [i \in 1..R.n |-> "ptr"] \o R.d
  \/ Is("Scalar") /\ R.value = Plain(R.d) /\ R.scalar = (IF R.simd THEN <<R.of>> ELSE Plain(R.d)) /\ R.simd = (R.of # "") /\ R.fp = (Plain(R.scalar)[1] \in {"float", "double"})
  \/ Is("Single") /\ R.r = (R.d = <<"float">>)
  \/ Is("Vector") /\ R.r = R.declared
  \/ Is("Exists") /\ R.r = R.declared
Spec == Init /\ [][Step]_l
=============================================================================
