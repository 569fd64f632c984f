------------------------------- MODULE Sizing -------------------------------
(* Sizing rules of team policies and of the concurrency figures (C04).       *)
EXTENDS Integers
Min(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* largest power of two not above i (0 when there is none)
PrevPow2(i) == IF i < 1 THEN 0 ELSE LET k == CHOOSE k \in 0..30 : Pow2(k) <= i /\ (k = 30 \/ Pow2(k + 1) > i) IN Pow2(k)
Warps(i) == CeilDiv(i, 32)
\* variants: "host", "mimic" (a GPU mimicked with teams of up to 7), "gpu"
DefaultTeam(var, threads, nk) == CASE var = "host" -> 1 [] var = "mimic" -> Min(threads, 7) [] var = "gpu" -> Min(128, 32 * Warps(nk))
ScanTeam(var, threads, nk) == IF var = "gpu" THEN Min(128, 32 * Warps(PrevPow2(nk))) ELSE DefaultTeam(var, threads, nk)
\* concurrency for a policy of `league` teams of `ts`
MaxThreads(var, threads, single) == IF var = "gpu" /\ ~single THEN threads \div 2 ELSE threads
Teams(mt, league, ts) == Min(mt \div ts, league)
\* over-provisioning factor n/d >= 1
Slots(var, teams, league, n, d) == IF var # "gpu" \/ league <= teams THEN teams ELSE Min((n * teams) \div d, league)
=============================================================================
