----------------------------- MODULE CommTrace ------------------------------
(* Runs of n processes; a record holds what all of them gave and got.        *)
EXTENDS Comm, TraceCommon
VARIABLES l, n, G
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ n = 0 /\ G = <<>>
Same == UNCHANGED <<n, G>>
Live(g) == {r \in 1..n : g[r] # <<>>}
\* what each process sees of its communicator
Sees(g) == \A r \in Live(g) : /\ R.rank[r] = Pos(g[r], r) - 1 /\ R.size[r] = Len(g[r]) /\ R.root[r] = (g[r][1] = r)
                              /\ R.members[r] = [i \in DOMAIN g[r] |-> g[r][i] - 1]
V(g, r) == R.inp[r]
Gone(g) == \A r \in (1..n) \ Live(g) : R.out[r] = <<>>
\* buffers that are only read are left alone, as is what lies beyond the count
Kept == \A r \in 1..n : R.kept[r]
ScalarOp(op) == op \in {"land", "lor", "lxor"}
\* MPI leaves a single contribution as it is; as a truth value it is the same
EqOp(op, x, y) == IF ScalarOp(op) THEN (x # 0) = (y # 0) ELSE x = y
Step ==
  \/ Is("Begin") /\ n' = R.n /\ G' = <<World(R.n), Self(R.n)>>
  \/ Is("Info") /\ Same /\ Sees(G[R.h])
  \/ /\ Is("Split") /\ n' = n
     /\ LET g == SplitAll(G[R.h], R.color) IN
          /\ G' = Append(G, g) /\ Sees(g)
          /\ \A r \in 1..n : R.err[r] = (G[R.h][r] # <<>> /\ R.color[r] < 0)
  \* an existing object made to wrap the communicator of another
  \/ Is("Wrap") /\ n' = n /\ G' = Append(G, G[R.h]) /\ Sees(G[R.h])
  \/ Is("Null") /\ Same /\ (\A r \in Live(G[R.h]) : R.err[r]) /\ Sees(G[R.h])
  \/ Is("Reduce") /\ Same /\ Gone(G[R.h]) /\ Kept
     /\ \A r \in Live(G[R.h]) : /\ Len(R.out[r]) = R.count
          /\ \A i \in 1..R.count : EqOp(R.op, R.out[r][i], IF R.kind = "all" THEN Reduced(R.op, R.inp, G[R.h][r], i) ELSE Scanned(R.op, R.inp, G[R.h][r], r, i))
  \/ Is("Gather") /\ Same /\ Gone(G[R.h]) /\ Kept /\ \A r \in Live(G[R.h]) : R.out[r] = Cat(R.inp, G[R.h][r])
  \/ Is("Bcast") /\ Same /\ Gone(G[R.h]) /\ Kept /\ \A r \in Live(G[R.h]) : R.out[r] = R.inp[G[R.h][r][R.from + 1]]
  \* nobody leaves the barrier before everyone has come
  \/ Is("Barrier") /\ Same /\ \A r \in Live(G[R.h]) : \A i \in DOMAIN G[R.h][r] : R.came[G[R.h][r][i]] <= R.left[r]
Next == Step
Spec == Init /\ [][Next]_<<l, n, G>>
=============================================================================
