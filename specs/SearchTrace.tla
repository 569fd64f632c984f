---------------------------- MODULE SearchTrace ----------------------------
EXTENDS Search, TraceCommon
VARIABLE l
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1
\* two numbers, as ranks in the order: which of them (by address) came back
Order == Is("Order") /\ R.r = (IF R.op = "min" THEN MinArg(R.a, R.b) ELSE MaxArg(R.a, R.b))
UpperBound == Is("Upper") /\ Parted(R.a, R.v) /\ R.r = Upper(R.a, R.v)
\* n copies of a byte (n = q * 1000000000 + r: beyond the 32-bit numbers), searched for v: nothing or all of it
Huge == Is("Huge") /\ (IF Lt(R.v, R.byte) THEN R.rq = 0 /\ R.rr = 0 ELSE R.rq = R.q /\ R.rr = R.r)
MaxElement == Is("MaxElt") /\ R.r = MaxElt(R.a)
Class == Is("Class") /\ (Has(R, "nan") => R.nan = (R.v = "nan")) /\ (Has(R, "fin") => R.fin = (R.v = "finite"))
MinMax == Is("MinMax") /\ (IF R.vs = 0 THEN R.mn = Min2(R.l0, R.l1) /\ R.mx = Max2(R.l0, R.l1) ELSE R.mn = TDiv(Min2(R.l0, R.l1), R.vs) /\ R.mx = TDiv(Max2(R.l0, R.l1), R.vs))
\* r1024: 1024 times the answer, for a that are powers of two
RelDiff == Is("RelDiff") /\ (IF R.whole THEN R.r1024 = 1024 * (Abs(R.b - R.a) \div Abs(R.a)) ELSE R.r1024 * Abs(R.a) = 1024 * Abs(R.b - R.a))
Biggest == [char |-> "127", uchar |-> "255", short |-> "32767", ushort |-> "65535", int |-> "2147483647", uint |-> "4294967295", long |-> "9223372036854775807", ulong |-> "18446744073709551615", float |-> "nan", double |-> "nan", ldouble |-> "nan"]
Invalid == Is("Invalid") /\ \A k \in DOMAIN R.got : R.got[k] = Biggest[R.type]
Trans == Is("Trans") /\ LET n == Size(R.n) IN R.src = [k \in 1..n |-> k] /\ Transposed(R.n, R.dir, R.src, SubSeq(R.dst, 1, n))
   /\ \A k \in (n + 1)..Len(R.dst) : R.dst[k] = -1
TLen == Is("Len") /\ R.r = StrLen(R.m)
TCmp == Is("Cmp") /\ R.r = StrCmp(Str(R.p), Str(R.q))
TCpy == Is("Cpy") /\ R.after = StrCpy(R.before, R.src)
Next == Order \/ UpperBound \/ Huge \/ MaxElement \/ Class \/ MinMax \/ RelDiff \/ Invalid \/ Trans \/ TLen \/ TCmp \/ TCpy
Spec == Init /\ [][Next]_l
=============================================================================
