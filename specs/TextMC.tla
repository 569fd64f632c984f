------------------------------- MODULE TextMC -------------------------------
(* Laws of the operators of Text, for every text up to a bound.             *)
EXTENDS Text
CONSTANTS Letters, MaxLen, Which
VARIABLES s, t
Strings(n) == UNION {[1..k -> Letters] : k \in 0..n}
Init == /\ s = <<>> /\ t = <<>>
Next == \/ /\ t = <<>> /\ Len(s) < MaxLen /\ \E c \in Letters : s' = Append(s, c) /\ UNCHANGED t
        \/ /\ Len(t) < Min2(MaxLen, 4) /\ Which # "nested" /\ \E c \in Letters : t' = Append(t, c) /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, t>>

SplitJoin == (Which = "split" /\ t # <<>>) => LET p == Split(s, t) IN Join(p, t) = s /\ \A i \in DOMAIN p : Find(p[i], t, 1) = 0
TrimLaw == Which = "split" => \A c \in Letters : LET r == Trim(s, c) IN Trim(r, c) = r /\ (r # <<>> => r[1] # c /\ r[Len(r)] # c) /\ Strip(r, c) = Strip(s, c)
TokenLaw == Which = "split" => \A D \in SUBSET Letters : LET q == Tokens(s, D) IN
              /\ Concat(q) = SelectSeq(s, LAMBDA x : x \notin D)
              /\ \A i \in DOMAIN q : q[i] # <<>>
              /\ (\E i \in DOMAIN t : t[i] \notin D) => Len(AtomicTokens(s, D, t)) <= Len(q)
NestedLaw == Which = "nested" => LET r == ParseNested(s) IN r.ok => Show(r.e, s[1], s[Len(s)]) = s /\ Depth(r.e) >= 1
Frac01(f) == f[2] > 0 /\ f[1] >= 0 /\ f[1] <= f[2]
Same(f, g) == f[1] * g[2] = g[1] * f[2]
ScoreLaw == Which = "score" =>
              /\ Frac01(Jaro(s, t)) /\ Same(Jaro(s, s), <<1, 1>>)
              /\ (Same(Jaro(s, t), <<1, 1>>) => s = t)
              /\ Frac01(JaroWinkler(s, t, 4, 10, 70))
              /\ JaroWinkler(s, t, 4, 10, 70)[1] * Jaro(s, t)[2] >= Jaro(s, t)[1] * JaroWinkler(s, t, 4, 10, 70)[2]
              /\ \A D \in SUBSET Letters : Frac01(Jaccard(s, t, D, TRUE, TRUE)) /\ Jaccard(s, t, D, TRUE, TRUE) = Jaccard(t, s, D, TRUE, TRUE)
                                        /\ Jaccard(s, t, D, FALSE, TRUE) = Jaccard(t, s, D, TRUE, FALSE)
Symmetric == Which = "score" => Same(Jaro(s, t), Jaro(t, s))
OrderLaw == Which = "order" =>
              /\ ~LessU(s, s)
              /\ ~(LessU(s, t) /\ LessU(t, s))
              /\ (EqualU(s, t) <=> ~LessU(s, t) /\ ~LessU(t, s))
              /\ \A u \in Strings(2) : (LessU(s, t) /\ LessU(t, u) => LessU(s, u)) /\ (EqualU(s, t) /\ LessU(t, u) => LessU(s, u))
=============================================================================
