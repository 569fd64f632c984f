------------------------------ MODULE TextTrace ------------------------------
(* Every recorded call of a string helper gives what Text says (C09..C12).  *)
EXTENDS Text, TraceCommon
VARIABLES l, map     \* map: entries <<key as inserted first, value>> of a map keyed by case-insensitive strings
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Call(e, res) == Is(e) /\ ~R.err /\ R.r = res /\ UNCHANGED map
Set(q) == {q[i] : i \in DOMAIN q}
Abs(x) == IF x < 0 THEN -x ELSE x
\* a score v is logged as round(10^k * v) for k = 1..8: within one unit of the
\* fraction at the finest scale whose products stay in range
RECURSIVE Scale(_, _)
Scale(d, k) == IF k < 8 /\ d < 200000000 THEN Scale(d * 10, k + 1) ELSE k
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
Close(f) == /\ R.finite /\ Len(R.r) = 8
            /\ LET d == IF f[2] = 0 THEN 1 ELSE f[2]
                   k == Scale(d * 10, 1)
               IN Abs(R.r[k] * d - Pow10(k) * f[1]) <= d
            /\ (f[1] = f[2] => R.exact1) /\ (f[1] = 0 => R.r[8] = 0) /\ R.inrange
\* the entries of a parsed list in the order written, each with its level
RECURSIVE Tree(_, _), TreeFrom(_, _, _)
Tree(e, lvl) == TreeFrom(e, 1, lvl)
TreeFrom(e, i, lvl) ==
  IF i > Len(e) THEN <<>>
  ELSE (IF e[i].t = "v" THEN <<[lvl |-> lvl, t |-> "v", w |-> e[i].w, n |-> 0, depth |-> 0]>>
        ELSE <<[lvl |-> lvl, t |-> "l", w |-> <<>>, n |-> Len(e[i].e), depth |-> Depth(e[i].e)]>> \o Tree(e[i].e, lvl + 1))
       \o TreeFrom(e, i + 1, lvl)

Init == l = 1 /\ map = <<>>
Next ==
  \/ Is("Split") /\ UNCHANGED map /\ (IF R.d = <<>> THEN R.err ELSE ~R.err /\ R.r = Split(R.s, R.d))
  \/ Call("Strip", Strip(R.s, R.c))
  \/ Call("Trim", Trim(R.s, R.c))
  \/ Call("StartsWith", StartsWith(R.s, R.d))
  \/ Call("Upper", Upper(R.s))
  \/ Call("StrInt", StrInt(R.s, R.i))
  \/ Call("Join", Join(R.q, R.d))
  \/ Call("JoinInts", Join([i \in DOMAIN R.q |-> Int2Text(R.q[i])], R.d))
  \/ Call("JoinUpper", Join([i \in DOMAIN R.q |-> Upper(R.q[i])], R.d))
  \/ Call("JoinIf", Join(SelectSeq(R.q, LAMBDA x : Len(x) % 2 = 1), R.d))
  \/ Call("JoinIfUpper", Join([i \in DOMAIN SelectSeq(R.q, LAMBDA x : Len(x) % 2 = 1) |-> Upper(SelectSeq(R.q, LAMBDA x : Len(x) % 2 = 1)[i])], R.d))
  \/ Call("Tokens", Tokens(R.s, Set(R.D)))
  \/ Is("Atomic") /\ ~R.err /\ SameBag(R.r, AtomicTokens(R.s, Set(R.D), R.a)) /\ UNCHANGED map
  \/ Call("ValidNested", ValidNested(R.s))
  \/ /\ Is("ParseNested") /\ UNCHANGED map
     /\ LET s == Strip(R.s, 32)
            p == ParseNested(s)
        IN IF ~p.ok THEN R.err
           ELSE ~R.err /\ R.r = Tree(p.e, 1) /\ R.n = Len(p.e) /\ R.depth = Depth(p.e) /\ R.str = s
  \/ Is("Jaro") /\ Close(Jaro(R.a, R.b)) /\ UNCHANGED map
  \/ Is("JaroWinkler") /\ (Close(JaroWinkler(R.a, R.b, R.l, R.p, R.thr))
                            \* exactly at the threshold, the rounding decides
                            \/ (LET s == Jaro(R.a, R.b) IN s[1] * 100 = R.thr * s[2] /\ Close(JaroWinkler(R.a, R.b, R.l, R.p, 0)))) /\ UNCHANGED map
  \/ Is("Jaccard") /\ Close(Jaccard(R.a, R.b, Set(R.D), R.ta, R.tb)) /\ UNCHANGED map
  \/ /\ Is("Compare") /\ UNCHANGED map       \* every mix of plain and case-insensitive operands
     /\ LET eq == EqualU(R.a, R.b)
            lt == LessU(R.a, R.b)
            want == IF R.plain THEN R.r      \* two plain strings: not our business
                    ELSE <<eq, ~eq, lt, lt \/ eq>>
        IN R.r = want
  \/ /\ Is("New") /\ map' = <<>>
  \/ /\ Is("Insert")                          \* m.insert({k, v}): keeps an equal key
     /\ LET same == {i \in DOMAIN map : EqualU(map[i][1], R.k)}
        IN /\ R.r = (same = {})
           /\ map' = IF same = {} THEN Append(map, <<R.k, R.v>>) ELSE map
  \/ /\ Is("Assign")                          \* m[k] = v
     /\ LET same == {i \in DOMAIN map : EqualU(map[i][1], R.k)}
        IN map' = IF same = {} THEN Append(map, <<R.k, R.v>>) ELSE [i \in DOMAIN map |-> IF i \in same THEN <<map[i][1], R.v>> ELSE map[i]]
  \/ /\ Is("Erase")
     /\ map' = SelectSeq(map, LAMBDA p : ~EqualU(p[1], R.k))
     /\ R.n = Len(map) - Len(map')
  \/ /\ Is("Find") /\ UNCHANGED map
     /\ LET same == {i \in DOMAIN map : EqualU(map[i][1], R.k)}
        IN R.r = IF same = {} THEN -1 ELSE map[CHOOSE i \in same : TRUE][2]
  \/ /\ Is("Contents") /\ UNCHANGED map       \* in order, every entry once
     /\ Len(R.q) = Len(map)
     /\ \A i \in DOMAIN R.q : \E j \in DOMAIN map : R.q[i] = map[j][1] /\ R.v[i] = map[j][2]
     /\ \A i \in 1..Len(R.q) - 1 : LessU(R.q[i], R.q[i + 1])
Spec == Init /\ [][Next]_<<l, map>>
=============================================================================
