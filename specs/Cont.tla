------------------------------- MODULE Cont -------------------------------
(* Sequences of values and what the container helpers do with them: zipped *)
(* visits, iterators over the keys of a map (which survive changes of the  *)
(* map elsewhere), searches, removals, weak pointers ordered by owner.     *)
EXTENDS Integers, Sequences, FiniteSets
SameSize(cs) == \A k \in DOMAIN cs : Len(cs[k]) = Len(cs[1])
Zip(cs) == [i \in 1..Len(cs[1]) |-> [k \in 1..Len(cs) |-> cs[k][i]]]
Unzip(n, z) == [k \in 1..n |-> [i \in 1..Len(z) |-> z[i][k]]]
\* 0-based position of the first v, the length if there is none
RECURSIVE FindAt(_, _, _)
FindAt(s, v, i) == IF i > Len(s) \/ s[i] = v THEN i - 1 ELSE FindAt(s, v, i + 1)
Find(s, v) == FindAt(s, v, 1)
Contains(s, v) == \E i \in DOMAIN s : s[i] = v
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
EraseFirst(s, v) == IF Contains(s, v) THEN Cut(s, Find(s, v) + 1) ELSE s
RECURSIVE Join(_)
Join(w) == IF w = <<>> THEN <<>> ELSE IF Len(w) = 1 THEN w[1] ELSE w[1] \o <<32>> \o Join(Tail(w))
\* Iterators over the keys of a map: an iterator stands at a key, or at End
End == 1000000
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
First(K) == IF K = {} THEN End ELSE Min(K)
After(K, x) == First({y \in K : y > x})
Before(K, x) == Max({y \in K : y < x})
CanDec(K, x) == \E y \in K : y < x
AllSame(ts) == \A i \in DOMAIN ts : ts[i] = ts[1]
=============================================================================
