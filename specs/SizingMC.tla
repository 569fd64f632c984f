------------------------------ MODULE SizingMC ------------------------------
EXTENDS Sizing
VARIABLES v, th, nk, lg, ts, sg, n, d
vs == <<v, th, nk, lg, ts, sg, n, d>>
Init == /\ v \in {"host", "mimic", "gpu"} /\ th \in {2, 8, 9, 64, 1000} /\ nk \in {1, 2, 31, 32, 33, 64, 65, 72, 127, 128, 129, 1000}
        /\ lg \in {1, 2, 7, 8, 100} /\ ts \in {1, 3, 8} /\ sg \in BOOLEAN /\ n \in {4, 5, 6, 8, 16} /\ d = 4
Next == UNCHANGED vs
Spec == Init /\ [][Next]_vs
T == DefaultTeam(v, th, nk)
C == ScanTeam(v, th, nk)
M == MaxThreads(v, th, sg)
K == Teams(M, lg, ts)
W == Slots(v, K, lg, n, d)
Rules == /\ v = "gpu" => /\ T % 32 = 0 /\ T <= 128 /\ (T < 128 => T >= nk /\ T - nk < 32)
                         /\ C \in {32, 64, 128} /\ C <= T
                         /\ (nk >= 32 => C <= nk)
         /\ v # "gpu" => T = C /\ T <= 7 /\ T <= th
         /\ ts <= M => /\ K >= 1 /\ K <= lg /\ K * ts <= M
                       /\ W >= K /\ W <= lg /\ (lg <= K => W = lg)
                       /\ (v = "gpu" => d * W <= n * K) /\ (W < K + 1 \/ v = "gpu")
=============================================================================
