------------------------------- MODULE CommMC -------------------------------
(* Communicators reachable by splitting, and the laws of the collectives on  *)
(* them, for every contribution.                                             *)
EXTENDS Comm
CONSTANTS N, Colors, Vals, Depth
VARIABLES g, v, d
vars == <<g, v, d>>
MCColors == {-1, 0, 1}
Ranks == 1..N
Init == g = World(N) /\ v \in [Ranks -> [1..1 -> Vals]] /\ d = 0
Next == d < Depth /\ d' = d + 1 /\ v' = v /\ \E c \in [Ranks -> Colors] : g' = SplitAll(g, c)
Spec == Init /\ [][Next]_vars
Live == {r \in Ranks : g[r] # <<>>}
Partition == \A r \in Live : /\ \E i \in DOMAIN g[r] : g[r][i] = r
                             /\ \A i \in DOMAIN g[r] : g[g[r][i]] = g[r]
                             /\ \A i, j \in DOMAIN g[r] : i < j => g[r][i] < g[r][j]
Ops == {"sum", "max", "min", "prod", "lor", "lxor", "land", "bxor", "band", "bor"}
Laws == \A r \in Live : \A op \in Ops :
  LET m == g[r] last == m[Len(m)] IN
  /\ Len(m) > 1 \/ op \notin {"land", "lor", "lxor"} => Reduced(op, v, m, 1) = Scanned(op, v, m, last, 1)
  /\ Scanned(op, v, m, m[1], 1) = v[m[1]][1]
  /\ r # m[1] => Scanned(op, v, m, r, 1) = Op(op, Scanned(op, v, m, m[Pos(m, r) - 1], 1), v[r][1])
  /\ Len(Cat(v, m)) = Len(m) /\ Cat(v, m)[Pos(m, r)] = v[r][1]
\* splitting twice is splitting by the pair of colors
Twice == d = 0 => \A a, b \in [Ranks -> Colors \ {-1}] : SplitAll(SplitAll(g, a), b) = SplitAll(g, [r \in Ranks |-> 10 * a[r] + b[r]])
=============================================================================
