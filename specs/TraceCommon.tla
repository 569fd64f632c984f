---------------------------- MODULE TraceCommon ----------------------------
(* Reading a recorded trace (one JSON record per line) and the acceptance   *)
(* condition: TLC found a behaviour that consumes every line.  Trace specs  *)
(* take exactly one step per line.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1
  IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
     ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
Has(r, f) == f \in DOMAIN r
=============================================================================
