----------------------------- MODULE SearchMC -----------------------------
(* The loops that kernels run, step by step, end with the declared answers. *)
EXTENDS Search, TLC
CONSTANTS MaxLen, MaxVal, MaxText, MaxExt, Algo
VARIABLES job, pc, s
vars == <<job, pc, s>>
Seqs(n, S) == UNION {[1..k -> S] : k \in 0..n}
Sorted(a) == \A i, j \in DOMAIN a : i < j => a[i] <= a[j]
Bytes == {97, 128, 255}
Arrays == {a \in Seqs(MaxLen, 0..MaxVal) : Sorted(a)}
Mem(t) == t \o <<0, 7>>
Exts == [1..3 -> 0..MaxExt]
Jobs == CASE Algo = "upper" -> {[a |-> a, v |-> v] : a \in Arrays, v \in (0..MaxVal) \cup {NaN, -1}}
          [] Algo = "max" -> {[a |-> a] : a \in Seqs(MaxLen, 0..MaxVal)}
          [] Algo = "text" -> {[p |-> p, q |-> q] : p, q \in Seqs(MaxText, Bytes)}
          [] Algo = "flat" -> {[n |-> n] : n \in Exts}
Init == job \in Jobs /\ pc = "run"
  /\ s = CASE Algo = "upper" -> [first |-> 0, count |-> Len(job.a)]
           [] Algo = "max" -> [me |-> 0, it |-> 1]
           [] Algo = "text" -> [i |-> 1]
           [] Algo = "flat" -> [done |-> {}, dst |-> [k \in 1..Size(job.n) |-> -1]]
\* bisection: all before first are not greater, all from first + count on are
Bisect == LET h == s.count \div 2 IN
  IF s.count = 0 THEN pc' = "end" /\ UNCHANGED s
  ELSE pc' = pc /\ s' = IF ~Lt(job.v, job.a[s.first + h + 1]) THEN [first |-> s.first + h + 1, count |-> s.count - (h + 1)] ELSE [s EXCEPT !.count = h]
Scan == IF s.it >= Len(job.a) THEN pc' = "end" /\ UNCHANGED s
  ELSE pc' = pc /\ s' = [me |-> IF Lt(job.a[s.me + 1], job.a[s.it + 1]) THEN s.it ELSE s.me, it |-> s.it + 1]
Walk == IF Mem(job.p)[s.i] # 0 /\ Mem(job.p)[s.i] = Mem(job.q)[s.i] THEN pc' = pc /\ s' = [i |-> s.i + 1] ELSE pc' = "end" /\ UNCHANGED s
Copy == LET todo == Elts(job.n) \ s.done IN
  IF todo = {} THEN pc' = "end" /\ UNCHANGED s
  ELSE pc' = pc /\ LET x == CHOOSE y \in todo : TRUE IN s' = [done |-> s.done \cup {x}, dst |-> [s.dst EXCEPT ![FIdx(job.n, x) + 1] = CIdx(job.n, x)]]
Next == pc = "run" /\ (CASE Algo = "upper" -> Bisect [] Algo = "max" -> Scan [] Algo = "text" -> Walk [] Algo = "flat" -> Copy) /\ UNCHANGED job
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(pc = "end")
Inv == CASE Algo = "upper" -> /\ Parted(job.a, job.v)
                              /\ \A i \in 1..s.first : ~Lt(job.v, job.a[i])
                              /\ \A i \in (s.first + s.count + 1)..Len(job.a) : Lt(job.v, job.a[i])
                              /\ pc = "end" => s.first = Upper(job.a, job.v)
         [] Algo = "max" -> pc = "end" => s.me = MaxElt(job.a)
         [] Algo = "text" -> /\ \A j \in 1..(s.i - 1) : Mem(job.p)[j] = Mem(job.q)[j]
                             /\ pc = "end" => LET d == Mem(job.p)[s.i] - Mem(job.q)[s.i] IN StrCmp(Str(Mem(job.p)), Str(Mem(job.q))) = (IF d < 0 THEN -1 ELSE IF d > 0 THEN 1 ELSE 0)
                             /\ StrCmp(job.p, job.q) = -StrCmp(job.q, job.p)
                             /\ (StrCmp(job.p, job.q) = 0) = (job.p = job.q)
                             /\ LET room == [k \in 1..(MaxText + 3) |-> 9] IN Str(StrCpy(room, Mem(job.p))) = job.p
         [] Algo = "flat" -> /\ Cardinality({FIdx(job.n, x) : x \in Elts(job.n)}) = Size(job.n)
                             /\ {CIdx(job.n, x) : x \in Elts(job.n)} = 0..(Size(job.n) - 1)
                             /\ pc = "end" => Transposed(job.n, "c2f", [k \in 1..Size(job.n) |-> k - 1], s.dst)
                             \* and back
                             /\ pc = "end" => Transposed(job.n, "f2c", s.dst, [k \in 1..Size(job.n) |-> k - 1])
=============================================================================
