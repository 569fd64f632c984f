------------------------------- MODULE ArgsMC -------------------------------
(* All lists of up to N arguments of a vocabulary.                           *)
EXTENDS Args
CONSTANT N
A == 97
B == 98
Vocab == { <<45, A>>, <<45, 45, B>>, <<A>>, <<B, 44, A>>, <<45, A, 61, B>>, <<45, 45, A, 61, A, 44, B>>, <<45>>, <<>>, <<A, 61, B>>, <<45, A, 61>>, <<45, 45>>, <<45, A, 61, 45, B>>, <<A, 44, 45, B>> }
VARIABLE args
Init == args = <<>>
Next == Len(args) < N /\ \E a \in Vocab : args' = Append(args, a)
Spec == Init /\ [][Next]_args
RECURSIVE Concat(_)
Concat(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(x[2]) + Concat(S \ {x})
Ok == ~Wrong(args)
\* every value is given to one key, once; parameters are the vectors of length one
NothingLost == Ok => LET t == Flat(args) IN Concat(Vecs(t)) = Cardinality({i \in DOMAIN t : ~t[i].key})
Single == Ok => LET t == Flat(args) IN \A p \in Params(t) : <<p[1], <<p[2]>>>> \in Vecs(t)
Every == Ok => LET t == Flat(args) IN \A i \in DOMAIN t : t[i].key => (t[i].s \in Flags(t) \/ \E v \in Vecs(t) : v[1] = t[i].s)
\* the spellings of a parameter with values mean the same
RECURSIVE Plain(_)
Plain(t) == IF t = <<>> THEN <<>> ELSE (IF t[1].key THEN <<<<45, 45>> \o t[1].s>> ELSE <<t[1].s>>) \o Plain(Tail(t))
Spelling == (Ok /\ args # <<>>) => Flat(Plain(Flat(args))) = Flat(args)
=============================================================================
