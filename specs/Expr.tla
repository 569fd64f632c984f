-------------------------------- MODULE Expr --------------------------------
(* Formulas over views.  A formula is a tree: <<"v", name>>, <<"s", text>>,  *)
(* <<operator, operand, ...>> or <<"if", condition, then, else>>.  Its value  *)
(* at an index is the same formula over the values at that index; values are *)
(* terms (text), so every step of the computation shows in the result.       *)
EXTENDS Integers, Sequences, FiniteSets
\* a term as a condition, and the order of terms: any fixed choice will do
Truth(t) == t = "1" \/ (t # "0" /\ Len(t) % 2 = 0)
Bool(b) == IF b THEN "1" ELSE "0"
RECURSIVE Value(_, _, _), Views(_), Join(_)
Join(s) == IF s = <<>> THEN "" ELSE " " \o Head(s) \o Join(Tail(s))
App(op, a) ==
  CASE op = "==" -> Bool(Len(a[1]) = Len(a[2])) [] op = "!=" -> Bool(Len(a[1]) # Len(a[2]))
    [] op = "<" -> Bool(Len(a[1]) < Len(a[2])) [] op = "<=" -> Bool(Len(a[1]) <= Len(a[2])) [] op = ">" -> Bool(Len(a[1]) > Len(a[2])) [] op = ">=" -> Bool(Len(a[1]) >= Len(a[2]))
    [] op = "&&" -> Bool(Truth(a[1]) /\ Truth(a[2])) [] op = "||" -> Bool(Truth(a[1]) \/ Truth(a[2]))
    [] op = "max" -> (IF Len(a[1]) < Len(a[2]) THEN a[2] ELSE a[1]) [] op = "min" -> (IF Len(a[2]) < Len(a[1]) THEN a[2] ELSE a[1])
    [] OTHER -> "(" \o op \o Join(a) \o ")"
\* st: the contents of each view, a sequence in row-major order of the indices; e: the position
Value(x, st, e) ==
  IF x[1] = "v" THEN st[x[2]].vals[e]
  ELSE IF x[1] = "s" THEN x[2]
  ELSE IF x[1] = "if" THEN IF Truth(Value(x[2], st, e)) THEN Value(x[3], st, e) ELSE Value(x[4], st, e)
  ELSE App(x[1], [k \in 1..(Len(x) - 1) |-> Value(x[k + 1], st, e)])
\* what is computed on the way: of a conditional, only the chosen side
RECURSIVE Work(_, _, _)
Work(x, st, e) ==
  IF x[1] \in {"v", "s"} THEN {}
  ELSE IF x[1] = "if" THEN Work(x[2], st, e) \cup Work(IF Truth(Value(x[2], st, e)) THEN x[3] ELSE x[4], st, e)
  ELSE {Value(x, st, e)} \cup UNION {Work(x[k], st, e) : k \in 2..Len(x)}
Views(x) == IF x[1] = "v" THEN {x[2]} ELSE IF x[1] = "s" THEN {} ELSE UNION {Views(x[k]) : k \in 2..Len(x)}
\* the views in a formula have the same extents, which are those of the formula
WellFormed(x, st) == Views(x) # {} /\ \A a, b \in Views(x) : st[a].ext = st[b].ext
Ext(x, st) == st[CHOOSE a \in Views(x) : TRUE].ext
Values(x, st) == [e \in DOMAIN st[CHOOSE a \in Views(x) : TRUE].vals |-> Value(x, st, e)]
\* evaluating into a view of the same extents changes that view, and nothing else
EvalOk(x, out, st) == Ext(x, st) = st[out].ext
Eval(x, out, st) == [st EXCEPT ![out].vals = Values(x, st)]
\* ---- numbers: types b(ool) c(har) s(hort) i(nt) l(ong) f(loat) d(ouble); values are multiples of 1/Q
Q == 64
Integral(t) == t \in {"b", "c", "s", "i", "l"}
Promote(t) == IF t \in {"b", "c", "s"} THEN "i" ELSE t
Arith(t, u) == IF "d" \in {t, u} THEN "d" ELSE IF "f" \in {t, u} THEN "f" ELSE IF "l" \in {t, u} THEN "l" ELSE "i"
Common(t, u) == IF t = u THEN t ELSE Arith(t, u)
Real(t) == IF Integral(t) THEN "d" ELSE t
Cmp == {"==", "!=", ">", ">=", "<", "<=", "&&", "||"}
Bit(b) == IF b THEN Q ELSE 0
Mag(n) == IF n < 0 THEN -n ELSE n
NaN == 999999999
Lt(a, b) == a # NaN /\ b # NaN /\ a < b
Eq(a, b) == a # NaN /\ a = b
Sign(n) == IF n < 0 THEN -1 ELSE 1
\* towards zero
Quot(a, b) == Sign(a) * Sign(b) * (Mag(a) \div Mag(b))
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN Q ELSE IF n > 0 THEN (Pow(a, n - 1) * a) \div Q ELSE Quot(Pow(a, n + 1) * Q, a)
Type(op, t, u) == IF op \in Cmp THEN "b" ELSE IF op \in {"max", "min"} THEN Common(t, u) ELSE IF op = "pow" THEN Real(Common(t, u)) ELSE IF op = "neg" THEN Promote(t) ELSE IF op \in {"sqrt", "exp", "log", "sin", "cos"} THEN Real(t) ELSE Arith(t, u)
\* the functions at the points where they are exact
Exact == [sqrt |-> [k \in {0, 16, 64, 256} |-> CASE k = 0 -> 0 [] k = 16 -> 32 [] k = 64 -> 64 [] k = 256 -> 128], exp |-> [k \in {0} |-> Q], log |-> [k \in {Q} |-> 0], sin |-> [k \in {0} |-> 0], cos |-> [k \in {0} |-> Q]]
Num(op, t, a, u, b) ==
  CASE op = "+" -> a + b [] op = "-" -> a - b [] op = "*" -> Quot(a * b, Q)
    [] op = "/" -> IF Integral(Arith(t, u)) THEN Quot(a, b) * Q ELSE Quot(a * Q, b)
    [] op = "==" -> Bit(Eq(a, b)) [] op = "!=" -> Bit(~Eq(a, b)) [] op = ">" -> Bit(Lt(b, a)) [] op = ">=" -> Bit(Lt(b, a) \/ Eq(a, b)) [] op = "<" -> Bit(Lt(a, b)) [] op = "<=" -> Bit(Lt(a, b) \/ Eq(a, b))
    [] op = "&&" -> Bit(a # 0 /\ b # 0) [] op = "||" -> Bit(a # 0 \/ b # 0)
    [] op = "max" -> (IF Lt(a, b) THEN b ELSE a) [] op = "min" -> (IF Lt(b, a) THEN b ELSE a)
    [] op = "pow" -> Pow(a, b \div Q) [] op = "neg" -> -a
    [] OTHER -> Exact[op][a]
=============================================================================
