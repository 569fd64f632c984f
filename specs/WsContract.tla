----------------------------- MODULE WsContract -----------------------------
(* What a user of one team's workspace may rely on (C01, C02).              *)
(*                                                                          *)
(* Live blocks are intervals of bytes.  The contract does not say which     *)
(* block a take returns, only that it overlaps no live one, lies inside the *)
(* workspace's buffer and is large enough; that a take succeeds whenever    *)
(* fewer than `cap` blocks are live; and that what was written stays.       *)
(* It also keeps the statistics a debug build reports.                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
VARIABLES cfg,    \* [cap: number of blocks, bytes: size of the buffer]
          live,   \* function from handles to [off, len, n, name, tag]
          high,   \* largest number of blocks ever in use
          cnt     \* name -> <<times taken, times released>>
cvars == <<cfg, live, high, cnt>>

EmptyF == [x \in {} |-> x]
UsedOf(f) == MapThenSumSet(LAMBDA h : f[h].n, DOMAIN f)
Used == UsedOf(live)

Overlap(a, b) == a.off < b.off + b.len /\ b.off < a.off + a.len
Inside(a) == a.off >= 0 /\ a.off + a.len <= cfg.bytes

\* Pairwise disjoint, inside the buffer, within capacity: the C01 invariant.
NoOverlap == \A g, h \in DOMAIN live : g # h => ~Overlap(live[g], live[h])
AllInside == \A h \in DOMAIN live : Inside(live[h])
WithinCap == Used <= cfg.cap
Invariant == NoOverlap /\ AllInside /\ WithinCap

Count(c, name, take, rel) ==
  IF name \in DOMAIN c THEN [c EXCEPT ![name] = <<@[1] + take, @[2] + rel>>]
  ELSE [x \in DOMAIN c \cup {name} |-> IF x = name THEN <<take, rel>> ELSE c[x]]
RECURSIVE CountAll(_, _, _, _)
CountAll(c, names, take, rel) ==
  IF names = <<>> THEN c ELSE CountAll(Count(c, Head(names), take, rel), Tail(names), take, rel)

Larger(a, b) == IF a > b THEN a ELSE b
Without(f, S) == [h \in DOMAIN f \ S |-> f[h]]
With(f, g) == [h \in DOMAIN f \cup DOMAIN g |-> IF h \in DOMAIN g THEN g[h] ELSE f[h]]
NamesOf(f, hs) == [i \in 1..Len(hs) |-> f[hs[i]].name]

\* new: handle -> record, order: the handles in the order of the request
TakeBlocks(new, order) ==
  /\ DOMAIN new \cap DOMAIN live = {}
  /\ Used + UsedOf(new) <= cfg.cap
  /\ live' = With(live, new)
  /\ high' = Larger(high, UsedOf(live'))
  /\ cnt' = CountAll(cnt, NamesOf(new, order), 1, 0)
  /\ UNCHANGED cfg
  /\ Invariant'

ReleaseBlocks(hs) ==      \* hs: a set of handles
  /\ hs \subseteq DOMAIN live
  /\ live' = Without(live, hs)
  /\ cnt' = [x \in DOMAIN cnt |-> <<cnt[x][1], cnt[x][2] + Cardinality({h \in hs : live[h].name = x})>>]
  /\ UNCHANGED <<cfg, high>>

\* mine: the handles of the team that resets its workspace
Reset(mine) == ReleaseBlocks(mine)

TakeAndReset(mine, new, order) ==
  /\ UsedOf(new) + UsedOf(Without(live, mine)) <= cfg.cap
  /\ live' = With(Without(live, mine), new)
  /\ high' = Larger(high, UsedOf(live'))
  /\ cnt' = CountAll([x \in DOMAIN cnt |-> <<cnt[x][1], cnt[x][2] + Cardinality({h \in mine : live[h].name = x})>>],
                     NamesOf(new, order), 1, 0)
  /\ UNCHANGED cfg
  /\ Invariant'

\* the manager-wide reset also forgets the statistics
ResetManager == live' = EmptyF /\ high' = 0 /\ cnt' = EmptyF /\ UNCHANGED cfg
=============================================================================
