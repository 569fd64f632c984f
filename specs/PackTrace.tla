----------------------------- MODULE PackTrace -----------------------------
(* Recorded histories of a machine with the packs d0 d1 f0 f1 i0 i1 and the  *)
(* masks m0 m1.                                                              *)
EXTENDS Pack, TraceCommon
VARIABLES n, reg, msk, l
vars == <<n, reg, msk, l>>
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == n = 0 /\ reg = <<>> /\ msk = <<>> /\ l = 1
Keep == UNCHANGED <<n, reg, msk>>
Ty(r) == CASE r \in {"d0", "d1"} -> "d" [] r \in {"f0", "f1"} -> "f" [] OTHER -> "i"
\* lane i of an operand: a register or a scalar
At(o, i) == IF o.k = "p" THEN reg[o.r][i] ELSE o.v
Vals(o) == [i \in 1..n |-> At(o, i)]
M(name) == IF name = "" THEN [i \in 1..n |-> TRUE] ELSE msk[name]
Store(r, v) == reg' = [reg EXCEPT ![r] = v] /\ UNCHANGED <<n, msk>>
\* the register named d holds the recorded lanes, which are the computed ones
To(d, v) == v = R.v /\ Store(d, R.v)
AllIn(s, x) == \A i \in DOMAIN s : s[i] = x
Frac(k) == CASE k = 0 -> "" [] k = 4 -> ".25" [] k = 8 -> ".5" [] k = 12 -> ".75"
Num(x) == (IF x < 0 THEN "-" ELSE "") \o ToString(Abs(x) \div Q) \o Frac(Abs(x) % Q)
RECURSIVE TextTo(_, _)
TextTo(p, k) == IF k = 0 THEN "" ELSE TextTo(p, k - 1) \o Num(p[k]) \o " "
RECURSIVE BitsTo(_, _)
BitsTo(m, k) == IF k = 0 THEN "" ELSE BitsTo(m, k - 1) \o (IF m[k] THEN "1 " ELSE "0 ")
Arithmetic ==
  \/ Is("Bin") /\ R.t = Wide(R.a.t, R.b.t) /\ R.r = [i \in 1..n |-> Op(R.o, R.t, At(R.a, i), At(R.b, i))] /\ Keep
  \/ Is("Neg") /\ R.r = [i \in 1..n |-> Neg(At(R.a, i))] /\ Keep
  \/ Is("Asg") /\ R.same /\ To(R.d, [i \in 1..n |-> Assign(R.o, Ty(R.d), R.a.t, reg[R.d][i], At(R.a, i))])
  \/ Is("MinMax") /\ R.r = [i \in 1..n |-> Pick(R.o, Conv(R.t, At(R.a, i)), Conv(R.t, At(R.b, i)))] /\ Keep
  \/ Is("Ext") /\ R.r = (LET p == Vals(R.a) IN Ext(R.o, M(""), p[1], p)) /\ Keep
  \/ Is("ExtM") /\ R.r = Ext(R.o, M(R.m), R.init, Vals(R.a)) /\ Keep
  \/ Is("Sum") /\ AllIn(R.r, R.init + Sum(Vals(R.a))) /\ AllIn(R.r0, Sum(Vals(R.a))) /\ Keep
  \/ Is("Shift") /\ R.r = (IF R.dir = "right" THEN ShiftRight(Conv(R.a.t, At(R.x, n)), Vals(R.a)) ELSE ShiftLeft(Conv(R.a.t, At(R.x, 1)), Vals(R.a))) /\ Keep
  \/ Is("Range") /\ R.r = Range(n, R.x) /\ Keep
  \/ Is("Make") /\ R.r = [i \in 1..n |-> Conv(R.t, IF M(R.m)[i] THEN At(R.a, i) ELSE At(R.b, i))] /\ Keep
  \/ Is("Zero") /\ AllIn(R.r, 0) /\ AllIn(R.id, 0) /\ Len(R.r) = n /\ Keep
  \/ Is("Invalid") /\ R.ok /\ R.nan = (R.t # "i") /\ Keep
  \/ Is("Npack") /\ R.r = Npack(n, R.k) /\ R.size = n /\ Keep
  \/ Is("Set") /\ R.same /\ To(R.d, [i \in 1..n |-> Conv(Ty(R.d), IF M(R.m)[i] THEN At(R.a, i) ELSE At(R.b, i))])
  \/ Is("Update") /\ R.same /\ To(R.d, [i \in 1..n |->
        IF R.keep /\ ~M(R.m)[i] THEN reg[R.d][i]
        ELSE Update(Ty(R.d), reg[R.d][i], IF M(R.m)[i] THEN At(R.a, i) ELSE At(R.b, i), R.al, R.be)])
  \/ Is("Read") /\ AllIn(R.v, reg[R.r][R.i + 1]) /\ Keep
  \/ Is("Write") /\ R.v = [reg[R.r] EXCEPT ![R.i + 1] = Conv(Ty(R.r), R.x)] /\ Store(R.r, R.v)
  \/ Is("Text") /\ R.s = TextTo(reg[R.r], n) /\ Keep
  \/ Is("Power") /\ R.sq = [i \in 1..n |-> Op("*", "d", At(R.a, i), At(R.a, i))]
                 /\ R.cu = [i \in 1..n |-> TruncDiv((At(R.a, i) * At(R.a, i)) * At(R.a, i), Q * Q)]
                 /\ R.ab = [i \in 1..n |-> Abs(At(R.a, i))] /\ Keep
  \/ Is("Lift") /\ R.r = R.s /\ Keep
Masks ==
  \/ Is("MMake") /\ R.r = [i \in 1..n |-> R.x] /\ Keep
  \/ Is("MSet") /\ LET m == [msk[R.m] EXCEPT ![R.i + 1] = R.x] IN R.v = m /\ msk' = [msk EXCEPT ![R.m] = m] /\ UNCHANGED <<n, reg>>
  \/ Is("MBin") /\ R.r = [i \in 1..n |-> Logic(R.o, msk[R.a][i], IF R.b = "" THEN R.x ELSE msk[R.b][i])] /\ Keep
  \/ Is("MNot") /\ R.r = [i \in 1..n |-> ~msk[R.a][i]] /\ Keep
  \/ Is("MEq") /\ R.r = (msk[R.a] = msk[R.b]) /\ Keep
  \/ Is("MQuery") /\ R.any = MAny(msk[R.a]) /\ R.all = MAll(msk[R.a]) /\ R.none = ~MAny(msk[R.a])
                  /\ R.loop = Selected(msk[R.a]) /\ R.novec = Selected(msk[R.a]) /\ R.s = BitsTo(msk[R.a], n) /\ Keep
  \/ Is("Cmp") /\ R.r = [i \in 1..n |-> Cmp(R.o, At(R.a, i), At(R.b, i))] /\ R.st = R.r
               /\ msk' = [msk EXCEPT ![R.m] = R.r] /\ UNCHANGED <<n, reg>>
  \/ Is("IsNan") /\ R.r = [i \in 1..n |-> At(R.a, i) = Nan] /\ Keep
  \/ Is("Where") /\ R.same /\ To(R.d, [i \in 1..n |-> IF M(R.m)[i] THEN Assign(R.o, Ty(R.d), R.a.t, reg[R.d][i], At(R.a, i)) ELSE reg[R.d][i]])
  \/ Is("WhereQ") /\ R.any = MAny(M(R.m)) /\ R.all = MAll(M(R.m)) /\ R.none = ~MAny(M(R.m))
                  /\ R.max = Ext("max", M(R.m), R.init, Vals(R.a)) /\ R.min = Ext("min", M(R.m), R.init, Vals(R.a)) /\ R.mask = M(R.m) /\ R.val = Vals(R.a) /\ Keep
  \/ Is("Fold") /\ R.same /\ R.r = Fold(R.o, R.a.t, R.a.t, M(R.m), R.s, Vals(R.a)) /\ Keep
  \* a scalar x of type t where c holds
  \/ Is("SWhere") /\ R.r = (IF R.c THEN Assign(R.o, R.t, R.a.t, R.x, R.a.v) ELSE R.x) /\ R.same /\ Keep
  \/ Is("SWhereQ") /\ R.max = (IF R.c THEN Max(R.init, R.x) ELSE R.init) /\ R.min = (IF R.c THEN Min(R.init, R.x) ELSE R.init) /\ R.max2 = R.max /\ R.min2 = R.min
                   /\ R.any = R.c /\ R.all = R.c /\ R.none = ~R.c /\ Keep
  \/ Is("SFold") /\ R.r = (IF R.c THEN Assign(R.o, R.t, R.t, R.s, R.x) ELSE R.s) /\ R.same /\ Keep
Step ==
  \/ Is("New") /\ n' = R.n /\ reg' = R.regs /\ msk' = R.masks
  \/ Is("Load") /\ Store(R.r, R.v)
  \/ Is("LoadM") /\ msk' = [msk EXCEPT ![R.r] = R.v] /\ UNCHANGED <<n, reg>>
  \/ Is("State") /\ R.regs = reg /\ R.masks = msk /\ Keep
  \/ Arithmetic
  \/ Masks
Spec == Init /\ [][Step]_vars
=============================================================================
