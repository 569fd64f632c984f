----------------------------- MODULE ContTrace -----------------------------
EXTENDS Cont, TraceCommon
VARIABLES l, K, it, W
vars == <<l, K, it, W>>
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ K = {} /\ it = <<End, End>> /\ W = {}
Keep == UNCHANGED <<K, it, W>>
Rng(s) == {s[i] : i \in DOMAIN s}
Step ==
  \/ Is("Zip") /\ Keep /\ R.err = ~SameSize(R.cs)
     /\ (~R.err => (R.out = Zip(R.cs) /\ R.after = R.cs))
  \* every element visited gets the value the program assigned to it
  \/ Is("ZipWrite") /\ Keep /\ SameSize(R.cs) /\ ~R.err /\ R.seen = Zip(R.cs)
     /\ R.after = Unzip(Len(R.cs), R.put)
  \/ Is("Map") /\ K' = Rng(R.keys) /\ R.walk = R.keys /\ it' = <<First(K'), End>> /\ W' = W
  \/ Is("Ins") /\ K' = K \cup {R.k} /\ UNCHANGED <<it, W>>
  \/ Is("Del") /\ R.k \notin Rng(it) /\ K' = K \ {R.k} /\ UNCHANGED <<it, W>>
  \/ Is("At") /\ it' = [it EXCEPT ![R.i] = IF R.k = "begin" THEN First(K) ELSE IF R.k = "end" THEN End ELSE it[3 - R.i]] /\ UNCHANGED <<K, W>>
  \/ Is("Inc") /\ it[R.i] # End
     /\ it' = [it EXCEPT ![R.i] = After(K, @)] /\ UNCHANGED <<K, W>>
     /\ R.r = (IF R.post THEN it ELSE it')[R.i]
  \/ Is("Dec") /\ CanDec(K, it[R.i])
     /\ it' = [it EXCEPT ![R.i] = Before(K, @)] /\ UNCHANGED <<K, W>>
     /\ R.r = (IF R.post THEN it ELSE it')[R.i]
  \/ Is("Deref") /\ R.r = it[R.i] /\ R.arrow = R.r /\ Keep
  \/ Is("Cmp") /\ R.eq = (it[1] = it[2]) /\ R.ne = (it[1] # it[2]) /\ Keep
  \/ Is("Search") /\ Keep /\ R.pos = Find(R.s, R.v) /\ R.has = Contains(R.s, R.v) /\ R.count = Count(R.s, R.v) /\ R.after = R.s
  \/ Is("Set") /\ Keep /\ R.pos = Find(R.s, R.v) /\ R.after = (IF R.pos < Len(R.s) THEN [R.s EXCEPT ![R.pos + 1] = R.x] ELSE R.s)
  \/ Is("Erase") /\ Keep /\ R.r = Contains(R.s, R.v) /\ R.after = EraseFirst(R.s, R.v)
  \/ Is("Print") /\ Keep /\ R.out = Join(R.s)
  \/ Is("Same") /\ Keep /\ R.value = AllSame(R.ts) /\ (R.value => R.type = R.ts[1])
  \/ Is("New") /\ K' = {} /\ it' = <<End, End>> /\ W' = {}
  \/ Is("WAdd") /\ R.r = (R.o \notin W) /\ W' = W \cup {R.o} /\ R.size = Cardinality(W') /\ UNCHANGED <<K, it>>
  \/ Is("WDel") /\ R.r = (R.o \in W) /\ W' = W \ {R.o} /\ R.size = Cardinality(W') /\ UNCHANGED <<K, it>>
  \/ Is("WHas") /\ R.r = (R.o \in W) /\ R.size = Cardinality(W) /\ Keep
Spec == Init /\ [][Step]_vars
=============================================================================
