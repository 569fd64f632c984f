-------------------------------- MODULE Log ---------------------------------
(* Loggers, their sinks and the files they write (C17, C18).                 *)
(* Levels: trace 0, debug 1, info 2, warn 3, err 4, critical 5, off 6.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Off == 6
Nil == [x \in {} |-> 0]
RECURSIVE Str(_)
Str(n) == IF n < 10 THEN <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[n + 1] ELSE Str(n \div 10) \o Str(n % 10)
LevName == <<"trace", "debug", "info", "warning", "error", "critical">>
Logs(mpi, rank) == mpi = "all" \/ rank = 0
FileName(file, mpi, name, suffix, size, rank) ==
  IF file = "none" THEN "" ELSE (IF mpi = "all" THEN name \o "." \o Str(size) \o "." \o Str(rank) ELSE name) \o suffix
\* formats: default, message only, name-level-message, message in quotes
Format(f, name, lev, text) ==
  CASE f = "d" -> "[T] [" \o name \o "] [" \o LevName[lev + 1] \o "] " \o text
    [] f = "m" -> text
    [] f = "n" -> name \o "|" \o LevName[lev + 1] \o "|" \o text
    [] OTHER -> "<" \o text \o ">"
\* a sink: level, format, destination ("console", a file name, or "" for nothing)
Sink(lev, dest) == [lev |-> lev, fmt |-> "d", dest |-> dest]
\* sinks and level of a logger made on its own
OwnLevel(mpi, rank, lev) == IF Logs(mpi, rank) THEN lev ELSE Off
ConsoleSink(mpi, rank, lev) == Sink(IF Logs(mpi, rank) THEN lev ELSE 0, "console")
FileSink(file, mpi, name, suffix, size, rank, lev) ==
  IF Logs(mpi, rank) THEN Sink(lev, FileName(file, mpi, name, suffix, size, rank)) ELSE Sink(Off, "")
Admits(lg, s, m) == lg.lev <= m /\ s.lev <= m
\* rotating files: a message that does not fit moves the files up by one, the last is dropped
Limit == 8 * 1024 * 1024
Keep == 5
RotName(base, ext, i) == IF i = 0 THEN base \o ext ELSE base \o "." \o Str(i) \o ext
=============================================================================
