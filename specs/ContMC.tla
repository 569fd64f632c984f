------------------------------ MODULE ContMC ------------------------------
EXTENDS Cont, TLC
CONSTANTS V, L
VARIABLES s, K, it
vars == <<s, K, it>>
Init == s = <<>> /\ K = {} /\ it = End
Push == \E v \in V : Len(s) < L /\ s' = Append(s, v) /\ UNCHANGED <<K, it>>
Drop == \E v \in V : s' = EraseFirst(s, v) /\ UNCHANGED <<K, it>>
Ins == \E v \in V : K' = K \cup {v} /\ UNCHANGED <<s, it>>
Del == \E v \in K : v # it /\ K' = K \ {v} /\ UNCHANGED <<s, it>>
Inc == it # End /\ it' = After(K, it) /\ UNCHANGED <<s, K>>
Dec == CanDec(K, it) /\ it' = Before(K, it) /\ UNCHANGED <<s, K>>
Restart == it' = First(K) /\ UNCHANGED <<s, K>>
Next == Push \/ Drop \/ Ins \/ Del \/ Inc \/ Dec \/ Restart
Spec == Init /\ [][Next]_vars
\* an iterator always stands at a key that is there
Valid == it = End \/ it \in K
\* from the first key, each is met once, in order, then the end
RECURSIVE Walk(_, _)
Walk(M, x) == IF x = End THEN <<>> ELSE <<x>> \o Walk(M, After(M, x))
Complete == LET w == Walk(K, First(K)) IN Len(w) = Cardinality(K) /\ (\A i \in DOMAIN w : w[i] \in K) /\ (\A i \in 1..Len(w) - 1 : w[i] < w[i + 1])
Inverse == it # End => (CanDec(K, After(K, it)) /\ Before(K, After(K, it)) = it)
Laws == \A v \in V :
  /\ Contains(s, v) <=> (Count(s, v) > 0)
  /\ Contains(s, v) <=> (Find(s, v) < Len(s))
  /\ Len(EraseFirst(s, v)) = Len(s) - (IF Contains(s, v) THEN 1 ELSE 0)
  /\ Count(EraseFirst(s, v), v) = (IF Contains(s, v) THEN Count(s, v) - 1 ELSE 0)
  /\ \A w \in V \ {v} : Count(EraseFirst(s, v), w) = Count(s, w)
  /\ Unzip(2, Zip(<<s, EraseFirst(s, v) \o <<v>>>>)) = <<s, IF Contains(s, v) THEN EraseFirst(s, v) \o <<v>> ELSE SubSeq(s \o <<v>>, 1, Len(s))>>
=============================================================================
