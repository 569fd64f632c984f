------------------------------- MODULE Search -------------------------------
(* What the kernel-side stand-ins for the standard functions give: order     *)
(* (with values that compare with nothing), searches, transpositions of flat *)
(* arrays, and NUL-terminated text.  Offsets count from 0.                   *)
EXTENDS Integers, Sequences, FiniteSets
NaN == 1000
Lt(a, b) == a # NaN /\ b # NaN /\ a < b
\* which of the two is returned
MinArg(a, b) == IF Lt(b, a) THEN 2 ELSE 1
MaxArg(a, b) == IF Lt(a, b) THEN 2 ELSE 1
\* an array in which what exceeds v comes last: the offset of the first that does
Parted(a, v) == \A i, j \in DOMAIN a : i < j /\ Lt(v, a[i]) => Lt(v, a[j])
Upper(a, v) == Cardinality({i \in DOMAIN a : ~Lt(v, a[i])})
\* the first of the largest, the end when there is none
MaxElt(a) == IF a = <<>> THEN 0 ELSE (CHOOSE i \in DOMAIN a : (\A j \in DOMAIN a : ~Lt(a[i], a[j])) /\ \A j \in 1..(i - 1) : Lt(a[j], a[i])) - 1
Abs(x) == IF x < 0 THEN -x ELSE x
TDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
Min2(a, b) == IF b < a THEN b ELSE a
Max2(a, b) == IF a < b THEN b ELSE a
\* ---- transposition: where element (i,k,j) of an ni x nk x nj array is, last or first index fastest
CIdx(n, x) == (n[2] * n[3]) * x[1] + n[3] * x[2] + x[3]
FIdx(n, x) == (n[1] * n[2]) * x[3] + n[1] * x[2] + x[1]
Elts(n) == {<<i, k, j>> : i \in 0..(n[1] - 1), k \in 0..(n[2] - 1), j \in 0..(n[3] - 1)}
Size(n) == n[1] * n[2] * n[3]
Transposed(n, dir, src, dst) == /\ Len(dst) = Size(n) /\ Len(src) = Size(n)
  /\ \A x \in Elts(n) : IF dir = "c2f" THEN dst[FIdx(n, x) + 1] = src[CIdx(n, x) + 1] ELSE dst[CIdx(n, x) + 1] = src[FIdx(n, x) + 1]
\* ---- text in memory: bytes 0..255, up to the first 0
StrLen(m) == (CHOOSE i \in DOMAIN m : m[i] = 0 /\ \A j \in 1..(i - 1) : m[j] # 0) - 1
Str(m) == SubSeq(m, 1, StrLen(m))
StrCmp(p, q) == LET n == Min2(Len(p), Len(q))  D == {i \in 1..n : p[i] # q[i]}
  IN IF p = q THEN 0 ELSE IF D = {} THEN (IF Len(p) < Len(q) THEN -1 ELSE 1)
     ELSE LET f == CHOOSE i \in D : \A j \in D : i <= j IN IF p[f] < q[f] THEN -1 ELSE 1
StrCpy(dst, src) == [i \in DOMAIN dst |-> IF i <= StrLen(src) + 1 THEN src[i] ELSE dst[i]]
=============================================================================
