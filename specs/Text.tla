-------------------------------- MODULE Text --------------------------------
(* Text as a sequence of character codes, and the meaning of EKAT's string  *)
(* helpers over it.  Written from the documentation, not from the code.     *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Range_(q) == {q[i] : i \in DOMAIN q}
Slice(s, a, b) == SubSeq(s, a, b)                 \* a..b, empty when b < a
From(s, a) == SubSeq(s, a, Len(s))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
IsAt(s, d, i) == i >= 1 /\ i + Len(d) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(d) - 1) = d
\* least position >= a where d occurs, 0 if none
RECURSIVE Find(_, _, _)
Find(s, d, a) == IF a + Len(d) - 1 > Len(s) THEN 0 ELSE IF IsAt(s, d, a) THEN a ELSE Find(s, d, a + 1)

RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)

RECURSIVE Split(_, _)
Split(s, d) == LET p == Find(s, d, 1) IN
  IF p = 0 THEN <<s>> ELSE <<Slice(s, 1, p - 1)>> \o Split(From(s, p + Len(d)), d)

Strip(s, c) == SelectSeq(s, LAMBDA x : x # c)
Trim(s, c) ==
  LET keep == {i \in DOMAIN s : s[i] # c}
  IN IF keep = {} THEN <<>>
     ELSE LET lo == CHOOSE i \in keep : \A j \in keep : i <= j
              hi == CHOOSE i \in keep : \A j \in keep : i >= j
          IN Slice(s, lo, hi)
StartsWith(s, p) == IsAt(s, p, 1)
Up(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Upper(s) == [i \in DOMAIN s |-> Up(s[i])]

Digit(d) == 48 + d
RECURSIVE Nat2Text(_)
Nat2Text(n) == IF n < 10 THEN <<Digit(n)>> ELSE Nat2Text(n \div 10) \o <<Digit(n % 10)>>
Int2Text(n) == IF n < 0 THEN <<45>> \o Nat2Text(-n) ELSE Nat2Text(n)
StrInt(s, n) == s \o <<32>> \o Int2Text(n)

\* ---- tokens: maximal runs of non-delimiters
RECURSIVE TokensFrom(_, _, _, _)
TokensFrom(s, D, i, cur) ==
  IF i > Len(s) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF s[i] \in D THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o TokensFrom(s, D, i + 1, <<>>)
  ELSE TokensFrom(s, D, i + 1, Append(cur, s[i]))
Tokens(s, D) == TokensFrom(s, D, 1, <<>>)

\* with an atomic word: its delimited occurrences, from the left, stay whole
RECURSIVE FirstDelimited(_, _, _, _)
FirstDelimited(s, D, a, i) ==
  LET p == Find(s, a, i)
  IN IF p = 0 THEN 0
     ELSE IF (p = 1 \/ s[p - 1] \in D) /\ (p + Len(a) > Len(s) \/ s[p + Len(a)] \in D) THEN p
     ELSE FirstDelimited(s, D, a, p + 1)
RECURSIVE AtomicTokens(_, _, _)
AtomicTokens(s, D, a) ==
  IF a = <<>> THEN Tokens(s, D)
  ELSE LET p == FirstDelimited(s, D, a, 1)
       IN IF p = 0 THEN Tokens(s, D)
          ELSE Tokens(Slice(s, 1, p - 1), D) \o <<a>> \o AtomicTokens(From(s, p + Len(a)), D, a)
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Range_(p) \cup Range_(q) : Count(p, x) = Count(q, x)

\* ---- nested lists: one kind of bracket, words over WordChars, no empty list or word
Pairs == {<<40, 41>>, <<91, 93>>, <<123, 125>>, <<60, 62>>}
WordChars == (97..122) \cup (65..90) \cup (48..57) \cup
             {95, 46, 45, 33, 64, 35, 36, 37, 94, 38, 42, 43, 61, 63}
Fail == [ok |-> FALSE, next |-> 0, e |-> <<>>]
Word(w) == [t |-> "v", w |-> w, e |-> <<>>]
List(e) == [t |-> "l", w |-> <<>>, e |-> e]
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ s[i] \in WordChars THEN WordEnd(s, i + 1) ELSE i
\* entries from position i (just inside an open bracket) to the closing one
RECURSIVE Entries(_, _, _, _)
Entries(s, o, c, i) ==
  LET item == IF i > Len(s) THEN Fail
              ELSE IF s[i] = o THEN LET r == Entries(s, o, c, i + 1) IN IF r.ok THEN [ok |-> TRUE, next |-> r.next, e |-> <<List(r.e)>>] ELSE Fail
              ELSE LET k == WordEnd(s, i) IN IF k = i THEN Fail ELSE [ok |-> TRUE, next |-> k, e |-> <<Word(Slice(s, i, k - 1))>>]
  IN IF ~item.ok \/ item.next > Len(s) THEN Fail
     ELSE IF s[item.next] = c THEN [ok |-> TRUE, next |-> item.next + 1, e |-> item.e]
     ELSE IF s[item.next] = 44 THEN LET r == Entries(s, o, c, item.next + 1)
                                    IN IF r.ok THEN [ok |-> TRUE, next |-> r.next, e |-> item.e \o r.e] ELSE Fail
     ELSE Fail
ParseNested(s) ==
  IF s = <<>> \/ ~(\E p \in Pairs : s[1] = p[1]) THEN Fail
  ELSE LET p == CHOOSE p \in Pairs : s[1] = p[1]
           r == Entries(s, p[1], p[2], 2)
       IN IF r.ok /\ r.next = Len(s) + 1 THEN r ELSE Fail
ValidNested(s) == ParseNested(s).ok
RECURSIVE Depth(_)
Depth(e) == LET sub == {Depth(e[i].e) : i \in {j \in DOMAIN e : e[j].t = "l"}}
            IN 1 + (IF sub = {} THEN 0 ELSE CHOOSE d \in sub : \A x \in sub : x <= d)
\* the text a parsed list came from
RECURSIVE Show(_, _, _)
Show(e, o, c) == <<o>> \o Join([i \in DOMAIN e |-> IF e[i].t = "v" THEN e[i].w ELSE Show(e[i].e, o, c)], <<44>>) \o <<c>>

\* ---- similarity scores, as exact fractions <<numerator, denominator>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lowest(f) == LET g == Gcd(f[1], f[2]) IN IF g = 0 THEN f ELSE <<f[1] \div g, f[2] \div g>>
\* Jaro: greedy matching from the left within the window
RECURSIVE JaroMatch(_, _, _, _, _)
JaroMatch(a, b, w, i, m) ==         \* m: sequence of pairs <<i, j>>
  IF i > Len(a) THEN m
  ELSE LET taken == {m[k][2] : k \in DOMAIN m}
           cand == {j \in Max2(1, i - w)..Min2(Len(b), i + w) : a[i] = b[j] /\ j \notin taken}
       IN JaroMatch(a, b, w, i + 1, IF cand = {} THEN m ELSE Append(m, <<i, CHOOSE j \in cand : \A k \in cand : j <= k>>))
RECURSIVE SortedBy(_)
SortedBy(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SortedBy(S \ {x})
Jaro(a, b) ==
  IF a = b THEN <<1, 1>>
  ELSE LET w == (Max2(Len(a), Len(b)) \div 2) - 1
           m == IF w < 0 THEN <<>> ELSE JaroMatch(a, b, w, 1, <<>>)
           n == Len(m)
           js == SortedBy({m[k][2] : k \in DOMAIN m})
           t2 == Cardinality({k \in 1..n : a[m[k][1]] # b[js[k]]})      \* twice the transpositions
       IN IF n = 0 THEN <<0, 1>>
          ELSE \* (n/|a| + n/|b| + (n - t2/2)/n) / 3
               Lowest(<<2*n*n*Len(b) + 2*n*n*Len(a) + (2*n - t2)*Len(a)*Len(b), 6*n*Len(a)*Len(b)>>)
RECURSIVE CommonPrefix(_, _, _)
CommonPrefix(a, b, max) == IF max = 0 \/ a = <<>> \/ b = <<>> \/ a[1] # b[1] THEN 0 ELSE 1 + CommonPrefix(Tail(a), Tail(b), max - 1)
\* p and the threshold in hundredths
JaroWinkler(a, b, l, p, thr) ==
  LET s == Jaro(a, b)
      k == CommonPrefix(a, b, l)
  IN IF s[1] * 100 > thr * s[2] THEN Lowest(<<100 * s[1] + k * p * (s[2] - s[1]), 100 * s[2]>>) ELSE s
Jaccard(a, b, D, ta, tb) ==
  IF ~ta /\ ~tb THEN IF a = b THEN <<1, 1>> ELSE <<0, 1>>
  ELSE LET A == IF ~ta THEN {a} ELSE Range_(IF tb THEN Tokens(a, D) ELSE AtomicTokens(a, D, b))
           B == IF ~tb THEN {b} ELSE Range_(IF ta THEN Tokens(b, D) ELSE AtomicTokens(b, D, a))
           n == Cardinality(A \cap B)
           u == Cardinality(A \cup B)
       IN IF u = 0 THEN <<1, 1>> ELSE <<n, u>>

\* ---- case-insensitive comparison
RECURSIVE LessU(_, _)
LessU(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF Up(a[1]) # Up(b[1]) THEN Up(a[1]) < Up(b[1]) ELSE LessU(Tail(a), Tail(b))
EqualU(a, b) == Upper(a) = Upper(b)
=============================================================================
