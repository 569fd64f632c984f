------------------------------- MODULE ExprMC -------------------------------
EXTENDS Expr, TLC
CONSTANTS Steps, Ops
VARIABLES st, prev, last, n
vars == <<st, prev, last, n>>
Names == {"x", "y", "z"}
L == 2
Leaf == {<<"v", a>> : a \in Names} \cup {<<"s", "1">>}
D1 == {<<"neg", a>> : a \in Leaf} \cup {<<o, a, b>> : o \in Ops, a \in Leaf, b \in Leaf} \cup {<<"if", a, b, c>> : a \in Leaf, b \in Leaf, c \in Leaf}
D2 == {<<"neg", a>> : a \in D1} \cup {<<o, a, b>> : o \in Ops, a \in D1, b \in Leaf} \cup {<<o, b, a>> : o \in Ops, a \in D1, b \in Leaf} \cup {<<"if", a, b, c>> : a \in D1, b \in {<<"v", "x">>, <<"s", "1">>}, c \in {<<"v", "y">>}}
\* histories of more than one step with the small formulas only
Trees == {t \in D1 \cup (IF Steps = 1 THEN D2 ELSE {}) : Views(t) # {}}
Init == st = [a \in Names |-> [ext |-> <<L>>, vals |-> [e \in 1..L |-> a \o (IF e = 1 THEN "0" ELSE "10")]]] /\ prev = st /\ last = <<"s", "1">> /\ n = 0
DoEval == \E t \in Trees, o \in Names : EvalOk(t, o, st) /\ st' = Eval(t, o, st) /\ last' = <<t, o>> /\ prev' = st
Next == n < Steps /\ n' = n + 1 /\ DoEval
Spec == Init /\ [][Next]_vars
Did == n > 0
\* nothing but the result changes, also when the result is one of the operands
Frame == Did => \A a \in Names \ {last[2]} : st[a] = prev[a]
\* elementwise: exchanging the elements of all views exchanges those of the result
Swap(q) == [a \in Names |-> [q[a] EXCEPT !.vals = [e \in 1..L |-> q[a].vals[L + 1 - e]]]]
Elementwise == Did => Eval(last[1], last[2], Swap(prev)) = Swap(st)
\* what is computed includes the result (unless that is a constant, an element or a truth value)
Computed == Did => \A e \in 1..L : LET v == Values(last[1], prev)[e] IN
  v \in Work(last[1], prev, e) \/ v \in {"1", "0"} \/ \E a \in Names : v = prev[a].vals[e]
\* evaluating an operand into a view of its own first gives the same
Aside == Did => LET t == last[1]  big == {k \in 2..Len(t) : t[k][1] \notin {"v", "s"} /\ Views(t[k]) # {}} IN
  \A k \in big : LET tmp == prev @@ ("t" :> [ext |-> <<L>>, vals |-> Values(t[k], prev)]) IN Values([t EXCEPT ![k] = <<"v", "t">>], tmp) = st[last[2]].vals
=============================================================================
