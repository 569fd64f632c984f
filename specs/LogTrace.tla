------------------------------ MODULE LogTrace ------------------------------
(* Histories of loggers of one process.  A record holds the lines that       *)
(* appeared on the console and in files, or the contents of all files.       *)
EXTENDS Log, TraceCommon
VARIABLES l, lg, sk, fs
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == l = 1 /\ lg = Nil /\ sk = <<>> /\ fs = Nil
L == lg[R.l]
Lines(q) == [i \in DOMAIN q |-> q[i].t]
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 0 ELSE q[1].n + Size(Tail(q))
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE <<>>
\* all files, as the driver lists them
SameFiles(f) == DOMAIN R.files = DOMAIN f /\ \A x \in DOMAIN f : R.files[x] = Lines(f[x])
Shown(g, s) == DOMAIN R.levels = {ToString(i) : i \in DOMAIN g}
               /\ \A i \in DOMAIN g : R.levels[ToString(i)] = <<g[i].lev, s[g[i].c].lev, s[g[i].f].lev>>
\* opening the file of a sink: rotating files are appended to, others start empty
\* the time takes 22 more characters than the driver shows
Bytes(line, fmt) == Len(line) + 1 + IF fmt = "d" THEN 22 ELSE 0
Opened(f, s, kind) == IF s.dest \in {"", "console"} THEN f
                      ELSE (s.dest :> IF kind = "big" THEN At(f, s.dest) ELSE <<>>) @@ f
\* a line written through a sink
Rotate(f, base, ext) ==
  LET names == {RotName(base, ext, i) : i \in 0..R.keep}
      have == {i \in 0..(R.keep - 1) : RotName(base, ext, i) \in DOMAIN f}
      top == {i + 1 : i \in have} \cup (IF RotName(base, ext, R.keep) \in DOMAIN f /\ R.keep - 1 \notin have THEN {R.keep} ELSE {})
      new == {RotName(base, ext, i) : i \in top}
  IN [x \in (DOMAIN f \ names) \cup new |-> IF x \in new THEN LET i == CHOOSE i \in top : RotName(base, ext, i) = x IN
        IF i - 1 \in have THEN f[RotName(base, ext, i - 1)] ELSE f[x] ELSE f[x]]
Write(f, s, line, n) ==
  IF s.dest \in {"", "console"} THEN f
  ELSE LET full == s.kind = "big" /\ Size(At(f, s.dest)) + n > R.limit /\ Size(At(f, s.dest)) > 0
           g == IF full THEN Rotate(f, s.base, s.ext) ELSE f
       IN (s.dest :> Append(At(g, s.dest), [t |-> line, n |-> n])) @@ g
Grew(old, new) == \* lines added to every file, when none was rotated
  /\ DOMAIN R.grew = {x \in DOMAIN new : Len(new[x]) > Len(At(old, x))}
  /\ \A x \in DOMAIN R.grew : R.grew[x] = Lines(SubSeq(new[x], Len(At(old, x)) + 1, Len(new[x])))
Out(old, new) == IF Has(R, "files") THEN SameFiles(new) ELSE Grew(old, new)
Mk(s, kind) == [lev |-> s.lev, fmt |-> s.fmt, dest |-> s.dest, kind |-> kind, base |-> IF Has(R, "base") THEN R.base ELSE "", ext |-> IF Has(R, "suffix") THEN R.suffix ELSE ""]
NoOutput == R.con = <<>> /\ Out(fs, fs')
Step ==
  \/ Is("Begin") /\ lg' = Nil /\ sk' = <<>> /\ fs' = Nil
  \/ /\ Is("New")
     /\ LET c == ConsoleSink(R.mpi, R.rank, R.lev)
            f == FileSink(R.file, R.mpi, R.name, R.suffix, R.size, R.rank, R.lev)
        IN /\ sk' = sk \o <<Mk(c, "console"), Mk(f, R.file)>>
           /\ lg' = (R.l :> [name |-> R.name, lev |-> OwnLevel(R.mpi, R.rank, R.lev), c |-> Len(sk) + 1, f |-> Len(sk) + 2,
                             log |-> FileName(R.file, R.mpi, R.name, R.suffix, R.size, R.rank)]) @@ lg
           /\ fs' = Opened(fs, f, R.file)
     /\ R.logname = FileName(R.file, R.mpi, R.name, R.suffix, R.size, R.rank)
     /\ R.con = <<>> /\ SameFiles(fs') /\ Shown(lg', sk')
  \/ /\ Is("Share") /\ UNCHANGED <<sk, fs>>
     /\ lg' = (R.l :> [lg[R.src] EXCEPT !.name = R.name, !.lev = OwnLevel(R.mpi, R.rank, R.lev)]) @@ lg
     /\ R.logname = lg[R.src].log
     /\ R.con = <<>> /\ SameFiles(fs) /\ Shown(lg', sk')
  \/ Is("Drop") /\ lg' = [i \in DOMAIN lg \ {R.l} |-> lg[i]] /\ UNCHANGED <<sk, fs>> /\ R.con = <<>> /\ SameFiles(fs) /\ Shown(lg', sk)
  \/ Is("SetLog") /\ lg' = [lg EXCEPT ![R.l].lev = R.lev] /\ UNCHANGED <<sk, fs>> /\ NoOutput /\ Shown(lg', sk')
  \/ Is("SetCon") /\ sk' = [sk EXCEPT ![L.c].lev = R.lev] /\ UNCHANGED <<lg, fs>> /\ NoOutput /\ Shown(lg', sk')
  \/ Is("SetFile") /\ sk' = [sk EXCEPT ![L.f].lev = R.lev] /\ UNCHANGED <<lg, fs>> /\ NoOutput /\ Shown(lg', sk')
  \/ Is("SetFmt") /\ sk' = [sk EXCEPT ![L.c].fmt = R.fmt, ![L.f].fmt = R.fmt] /\ UNCHANGED <<lg, fs>> /\ NoOutput /\ Shown(lg', sk')
  \/ /\ Is("Msg") /\ UNCHANGED <<lg, sk>>
     /\ LET toc == Admits(L, sk[L.c], R.lev) tof == Admits(L, sk[L.f], R.lev)
            fc == Format(sk[L.c].fmt, L.name, R.lev, R.text) ff == Format(sk[L.f].fmt, L.name, R.lev, R.text)
        IN /\ R.con = IF toc THEN <<fc>> ELSE <<>>
           /\ fs' = IF tof THEN Write(fs, sk[L.f], ff, Bytes(ff, sk[L.f].fmt) + R.bulk) ELSE fs
     /\ Out(fs, fs')
  \/ \* several threads at once: every thread's lines in its order, whole, and nothing else
     /\ Is("Burst") /\ UNCHANGED <<lg, sk>>
     /\ LET N == Len(R.who)
            Line(t, k, s) == Format(s.fmt, lg[R.who[t]].name, R.levs[t], R.texts[t][k])
            All(q) == {q[i] : i \in DOMAIN q}
            To(t, s) == IF Admits(lg[R.who[t]], s, R.levs[t]) THEN [k \in DOMAIN R.texts[t] |-> Line(t, k, s)] ELSE <<>>
            Merged(got, want) == /\ \A t \in 1..N : LET w == All(want[t]) IN SelectSeq(got, LAMBDA x : x \in w) = want[t]
                                 /\ \A i \in DOMAIN got : \E t \in 1..N : got[i] \in All(want[t])
            wantc == [t \in 1..N |-> To(t, sk[lg[R.who[t]].c])]
            wantf(x) == [t \in 1..N |-> LET s == sk[lg[R.who[t]].f] IN IF s.dest = x THEN To(t, s) ELSE <<>>]
        IN /\ Merged(R.con, wantc)
           /\ DOMAIN R.grew = {x \in DOMAIN fs : \E t \in 1..N : wantf(x)[t] # <<>>}
           /\ \A x \in DOMAIN R.grew : Merged(R.grew[x], wantf(x))
           /\ fs' = [x \in DOMAIN fs |-> IF x \in DOMAIN R.grew THEN fs[x] \o [i \in DOMAIN R.grew[x] |-> [t |-> R.grew[x][i], n |-> 0]] ELSE fs[x]]
Next == Step
Spec == Init /\ [][Next]_<<l, lg, sk, fs>>
=============================================================================
