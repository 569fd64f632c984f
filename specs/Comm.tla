-------------------------------- MODULE Comm --------------------------------
(* Communicators and collective operations (C15, C16).  A communicator, as   *)
(* seen by each world rank, is the sequence of the world ranks it holds.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pos(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
RECURSIVE Bits(_, _, _, _)
Bits(op, a, b, k) == IF k = 0 THEN 0
  ELSE LET x == a % 2 y == b % 2
           z == CASE op = "band" -> x * y [] op = "bor" -> IF x + y > 0 THEN 1 ELSE 0 [] op = "bxor" -> (x + y) % 2
       IN z + 2 * Bits(op, a \div 2, b \div 2, k - 1)
B(x) == IF x THEN 1 ELSE 0
Op(op, a, b) ==
  CASE op = "sum" -> a + b [] op = "prod" -> a * b
    [] op = "max" -> IF a > b THEN a ELSE b [] op = "min" -> IF a < b THEN a ELSE b
    [] op = "land" -> B(a # 0 /\ b # 0) [] op = "lor" -> B(a # 0 \/ b # 0) [] op = "lxor" -> B((a # 0) # (b # 0))
    [] OTHER -> Bits(op, a, b, 8)
RECURSIVE Fold(_, _)
Fold(op, q) == IF Len(q) = 1 THEN q[1] ELSE Op(op, Fold(op, SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
\* v: contribution of every world rank, m: members
Reduced(op, v, m, i) == Fold(op, [j \in DOMAIN m |-> v[m[j]][i]])
Scanned(op, v, m, r, i) == Fold(op, [j \in 1..Pos(m, r) |-> v[m[j]][i]])
RECURSIVE Cat(_, _)
Cat(v, m) == IF m = <<>> THEN <<>> ELSE v[Head(m)] \o Cat(v, Tail(m))
\* the part of communicator m with the color of r, in the order of m
Part(m, color, r) == SelectSeq(m, LAMBDA x : color[x] = color[r])
SplitAll(g, color) == [r \in DOMAIN g |-> IF g[r] = <<>> \/ color[r] < 0 THEN <<>> ELSE Part(g[r], color, r)]
World(n) == [r \in 1..n |-> [i \in 1..n |-> i]]
Self(n) == [r \in 1..n |-> <<r>>]
=============================================================================
