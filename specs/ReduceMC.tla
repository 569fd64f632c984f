------------------------------ MODULE ReduceMC ------------------------------
(* A team reduces the entries b..e-1, grouped in packs of n: the packs that  *)
(* are complete are dealt out among the threads, who add up their share and  *)
(* then join; the incomplete ones at both ends are added by everybody.       *)
EXTENDS Reduce, TLC
CONSTANTS Top, Threads, MaxPack
VARIABLES b, e, n, serial, todo, part, joined, res
vars == <<b, e, n, serial, todo, part, joined, res>>
T == 1..Threads
Whole == {k \in Packs(n, b, e) : b <= k * n /\ (k + 1) * n <= e}
Lanes(k) == [j \in 1..n |-> k * n + j - 1]
Front == IF b % n = 0 THEN <<>> ELSE IF b \div n = e \div n THEN Run(b, e) ELSE Run(b, (b \div n + 1) * n)
Back == IF e % n = 0 \/ (b % n # 0 /\ b \div n = e \div n) THEN <<>> ELSE Run((e \div n) * n, e)
Init == b \in 0..Top /\ e \in b..Top /\ n \in {x \in {1, 2, 4} : x <= MaxPack} /\ serial \in BOOLEAN /\ todo = Whole /\ part = [t \in T |-> <<>>] /\ joined = {} /\ res = [t \in T |-> <<-1>>]
Keep == UNCHANGED <<b, e, n, serial>>
Deal(t) == ~serial /\ joined = {} /\ \E k \in todo : todo' = todo \ {k} /\ part' = [part EXCEPT ![t] = @ \o Lanes(k)] /\ UNCHANGED <<joined, res>> /\ Keep
\* the last thread joins the parts in order
Join == ~serial /\ todo = {} /\ joined = {} /\ joined' = T /\ Keep /\ UNCHANGED <<todo, part>>
        /\ res' = LET all == [k \in 0..Threads |-> k]
                      F[k \in 0..Threads] == IF k = 0 THEN Front ELSE F[k - 1] \o part[k]
                  IN [t \in T |-> F[Threads] \o Back]
Alone(t) == serial /\ t \notin joined /\ joined' = joined \cup {t} /\ res' = [res EXCEPT ![t] = Run(b, e)] /\ UNCHANGED <<todo, part>> /\ Keep
Next == Join \/ \E t \in T : Deal(t) \/ Alone(t)
Spec == Init /\ [][Next]_vars
Once == joined = T => \A t \in T : Perms(res[t], b, e) /\ (serial => res[t] = Run(b, e)) /\ res[t] = res[1]
Nothing == \A t \in joined : \A k \in DOMAIN res[t] : res[t][k] \div n \in Packs(n, b, e)
\* rounding is a retraction, and sums of small numbers are exact
ASSUME \A x \in {16777216 + k : k \in 0..9} \cup {33554432 + k : k \in 0..9} : Round(Round(x)) = Round(x) /\ Round(0 - x) = 0 - Round(x)
ASSUME Round(16777217) = 16777216 /\ Round(16777219) = 16777220 /\ Round(33554434) = 33554432 /\ Round(33554438) = 33554440
=============================================================================
