-------------------------------- MODULE Args --------------------------------
(* What a list of test arguments means (C21).  Texts are sequences of        *)
(* character codes: 45 is '-', 61 '=', 44 ','.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == IF \A i \in DOMAIN s : s[i] # c THEN <<s>>
                 ELSE LET i == CHOOSE i \in DOMAIN s : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c
                      IN <<SubSeq(s, 1, i - 1)>> \o SplitAt(SubSeq(s, i + 1, Len(s)), c)
IsKey(s) == s # <<>> /\ s[1] = 45
KeyOf(s) == IF Len(s) > 1 /\ s[2] = 45 THEN SubSeq(s, 3, Len(s)) ELSE SubSeq(s, 2, Len(s))
Key(s) == [key |-> TRUE, s |-> KeyOf(s)]
Val(s) == [key |-> FALSE, s |-> s]
Bad == <<[key |-> FALSE, s |-> <<-1>>]>>
Vals(s, else) == LET v == SplitAt(s, 44) IN IF \E i \in DOMAIN v : IsKey(v[i]) THEN Bad ELSE else \o [i \in DOMAIN v |-> Val(v[i])]
\* -k=v1,v2 or v1,v2 or -k or v
Tokens(a) == LET e == SplitAt(a, 61) IN
  IF Len(e) > 2 THEN Bad
  ELSE IF Len(e) = 2 THEN IF IsKey(e[1]) THEN Vals(e[2], <<Key(e[1])>>) ELSE Bad
  ELSE IF Len(SplitAt(a, 44)) > 1 THEN Vals(a, <<>>)
  ELSE IF IsKey(a) THEN <<Key(a)>> ELSE <<Val(a)>>
RECURSIVE Flat(_)
Flat(args) == IF args = <<>> THEN <<>> ELSE Tokens(args[1]) \o Flat(Tail(args))
Wrong(args) == args # <<>> /\ ((\E i \in DOMAIN args : Tokens(args[i]) = Bad) \/ ~Flat(args)[1].key)
\* a value belongs to the last key before it
Owner(t, i) == CHOOSE k \in 1..i : t[k].key /\ \A j \in (k + 1)..i : ~t[j].key
Flags(t) == {t[i].s : i \in {i \in DOMAIN t : t[i].key /\ (i = Len(t) \/ t[i + 1].key)}}
Given(t, s) == SelectSeq([i \in DOMAIN t |-> IF ~t[i].key /\ t[Owner(t, i)].s = s THEN <<t[i].s>> ELSE <<>>], LAMBDA x : x # <<>>)
Values(t, s) == [i \in DOMAIN Given(t, s) |-> Given(t, s)[i][1]]
Vecs(t) == LET ks == {t[Owner(t, i)].s : i \in {i \in DOMAIN t : ~t[i].key}} IN {<<k, Values(t, k)>> : k \in ks}
Params(t) == {<<v[1], v[2][1]>> : v \in {v \in Vecs(t) : Len(v[2]) = 1}}
=============================================================================
