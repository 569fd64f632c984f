------------------------------ MODULE Session -------------------------------
(* The Kokkos session of a process, and the floating point traps (C22).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Fpe
Fresh == [st |-> "new", thr |-> 0, en |-> {}]
Usual == {"FE_INVALID", "FE_DIVBYZERO", "FE_OVERFLOW"}
\* arguments: asked is the number of threads asked for with a kokkos option, 0 for none
Start(s, asked, dflt) == IF s.st = "new" THEN [s EXCEPT !.st = "on", !.thr = IF asked = 0 THEN dflt ELSE asked] ELSE s
Stop(s) == IF s.st = "on" THEN [s EXCEPT !.st = "off", !.thr = 0] ELSE s
TStart(s, asked, dflt, mask) == LET t == Start(s, asked, dflt) IN IF mask THEN [t EXCEPT !.en = @ \cup Usual] ELSE t
=============================================================================
