------------------------------ MODULE ExprTrace ------------------------------
EXTENDS Expr, TraceCommon
VARIABLES st, tree, l
vars == <<st, tree, l>>
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ st = <<>> /\ tree = <<>>
\* contents given to the views
New == Is("New") /\ st' = R.views /\ UNCHANGED tree
\* a formula made of the views; it sees what they hold when it is evaluated
Build == Is("Build") /\ WellFormed(R.tree, st) /\ R.ext = Ext(R.tree, st) /\ tree' = R.tree /\ UNCHANGED st
\* its value at every index
Direct == Is("Direct") /\ R.vals = Values(tree, st)
          /\ (\A e \in DOMAIN R.work : \A k \in DOMAIN R.work[e] : R.work[e][k] \in Work(tree, st, e))
          /\ UNCHANGED <<st, tree>>
\* evaluated into a view; what all views hold afterwards
Evaluate == Is("Eval") /\ R.refused = ~EvalOk(tree, R.out, st) /\ st' = (IF R.refused THEN st ELSE Eval(tree, R.out, st)) /\ R.views = st' /\ UNCHANGED tree
\* numbers of types t and u (if the condition c holds), the type and the value of the result
Number == Is("Num") /\ R.rt = Type(R.op, R.t, R.u) /\ R.r = Num(R.op, R.t, R.a, R.u, R.b) /\ UNCHANGED <<st, tree>>
Choice == Is("If") /\ R.rt = Common(R.t, R.u) /\ R.r = (IF R.c # 0 THEN R.a ELSE R.b) /\ UNCHANGED <<st, tree>>
Next == Number \/ Choice \/ New \/ Build \/ Direct \/ Evaluate
Spec == Init /\ [][Next]_vars
=============================================================================
