------------------------------- MODULE PackMC -------------------------------
(* All packs and masks of N lanes over V: operations on a register machine   *)
(* with two packs and a mask.                                                *)
EXTENDS Pack
CONSTANTS N, MaxOps
V == {-20, 0, 16, Nan}
VARIABLES p, q, m, s, last, old, ops
vars == <<p, q, m, s, last, old, ops>>
Seqs(S) == {[i \in 1..N |-> f[i]] : f \in [1..N -> S]}
Init == /\ p \in Seqs(V) /\ q \in Seqs(V) /\ m \in Seqs(BOOLEAN) /\ s \in V /\ last = "none" /\ old = <<p, q, m, s>> /\ ops = 0
Small(x) == x = Nan \/ Abs(x) <= 64 * Q
Keep == old' = <<p, q, m, s>> /\ ops < MaxOps /\ ops' = ops + 1
Assigns(o) == /\ Keep /\ last' = "assign" /\ p' = Lanes(N, LAMBDA i : Assign(o, "f", "f", p[i], q[i])) /\ UNCHANGED <<q, m, s>>
Where(o) == /\ Keep /\ last' = "where" /\ p' = Lanes(N, LAMBDA i : IF m[i] THEN Assign(o, "f", "f", p[i], q[i]) ELSE p[i]) /\ UNCHANGED <<q, m, s>>
Compare(o) == /\ Keep /\ last' = "compare" /\ m' = Lanes(N, LAMBDA i : Cmp(o, p[i], q[i])) /\ UNCHANGED <<p, q, s>>
Not == /\ Keep /\ last' = "not" /\ m' = Lanes(N, LAMBDA i : ~m[i]) /\ UNCHANGED <<p, q, s>>
Swap == /\ Keep /\ last' = "swap" /\ p' = q /\ q' = p /\ UNCHANGED <<m, s>>
Reduce(o) == /\ Keep /\ last' = "reduce" /\ MAny(m) /\ s # Nan /\ (\A i \in 1..N : p[i] # Nan) /\ s' = Ext(o, m, s, p) /\ UNCHANGED <<p, q, m>>
Shift == /\ Keep /\ last' = "shift" /\ p' = ShiftRight(s, p) /\ s' = p[N] /\ UNCHANGED <<q, m>>
Next == (\E o \in {"=", "+", "-", "*"} : Assigns(o) \/ Where(o)) \/ (\E o \in {"<", "=="} : Compare(o)) \/ Not \/ Swap \/ (\E o \in {"min", "max"} : Reduce(o)) \/ Shift
Spec == Init /\ [][Next]_vars
Bound == \A i \in 1..N : Small(p[i]) /\ Small(q[i])
(* lanes that are not selected keep their contents *)
Untouched == last = "where" => \A i \in 1..N : ~m[i] => p[i] = old[1][i]
(* masked assignment with everything selected is assignment, and twice the complement is the whole *)
SetOps == /\ Sel(m, p, q) = Sel([i \in 1..N |-> ~m[i]], q, p)
          /\ (MAll(m) => Sel(m, p, q) = p) /\ (~MAny(m) => Sel(m, p, q) = q)
          /\ Len(Selected(m)) = Cardinality({i \in 1..N : m[i]})
          /\ \A k \in 1..Len(Selected(m)) : m[Selected(m)[k] + 1]
(* exactly one of <, ==, > holds, unless NaN is involved; != is the complement of == *)
Order == \A i \in 1..N : /\ (Cmp("!=", p[i], q[i]) = ~Cmp("==", p[i], q[i]))
                         /\ (p[i] # Nan /\ q[i] # Nan) => Cardinality({o \in {"<", "==", ">"} : Cmp(o, p[i], q[i])}) = 1
                         /\ (Cmp("<", p[i], q[i]) = Cmp(">", q[i], p[i])) /\ (Cmp("<=", p[i], q[i]) = Cmp(">=", q[i], p[i]))
ShiftInverse == /\ ShiftLeft(p[N], ShiftRight(s, p)) = p /\ ShiftRight(p[1], ShiftLeft(s, p)) = p
ExtIn == last = "reduce" => s \in {old[4]} \cup {old[1][i] : i \in 1..N}
(* multiplication and division of representable values agree; truncation goes towards zero *)
Mul == \A i \in 1..N : p[i] # Nan => /\ Op("/", "d", Op("*", "d", p[i], 2 * Q), 2 * Q) = p[i]
                                     /\ Abs(ToInt(p[i])) <= Abs(p[i]) /\ Abs(p[i]) - Abs(ToInt(p[i])) < Q
                                     /\ Update("d", Nan, p[i], Q, 0) = p[i]
=============================================================================
