------------------------------- MODULE LogMC --------------------------------
(* Two loggers, one of which may borrow the sinks of the other: a message    *)
(* reaches a destination exactly when both levels admit it, and what is done *)
(* to one logger is not felt by another that shares nothing with it.         *)
EXTENDS Log
CONSTANTS Share
Levels == {0, 2, 4, Off}
VARIABLES lg, sk, got
vars == <<lg, sk, got>>
\* sinks 1,2 of logger 1 (console, file), 3,4 of logger 2 unless shared
SinksOf(i) == IF i = 1 \/ Share THEN <<1, 2>> ELSE <<3, 4>>
Init == /\ lg = [i \in 1..2 |-> [lev |-> 2]]
        /\ sk = [i \in 1..4 |-> Sink(2, IF i % 2 = 1 THEN "console" ELSE "f" \o Str(i))]
        /\ got = [by |-> 0, m |-> 0, to |-> {}]
None == [by |-> 0, m |-> 0, to |-> {}]
SetLog(i, v) == lg' = [lg EXCEPT ![i].lev = v] /\ sk' = sk /\ got' = None
SetSink(i, j, v) == sk' = [sk EXCEPT ![SinksOf(i)[j]].lev = v] /\ lg' = lg /\ got' = None
Msg(i, m) == /\ UNCHANGED <<lg, sk>>
             /\ got' = [by |-> i, m |-> m, to |-> {SinksOf(i)[j] : j \in {j \in 1..2 : Admits(lg[i], sk[SinksOf(i)[j]], m)}}]
Next == \E i \in 1..2 : (\E v \in Levels : SetLog(i, v) \/ \E j \in 1..2 : SetSink(i, j, v)) \/ \E m \in {0, 2, 4, 5} : Msg(i, m)
Spec == Init /\ [][Next]_vars
Right == got.by # 0 => /\ got.to \subseteq {SinksOf(got.by)[1], SinksOf(got.by)[2]}
                       /\ lg[got.by].lev = Off => got.to = {}
                       /\ \A s \in got.to : sk[s].lev # Off /\ sk[s].lev <= got.m
Monotone == \A i \in 1..2, m \in 0..4 : \A j \in 1..2 : Admits(lg[i], sk[SinksOf(i)[j]], m) => Admits(lg[i], sk[SinksOf(i)[j]], m + 1)
Isolated == [][~Share /\ (lg'[2] # lg[2] \/ \E s \in {3, 4} : sk'[s] # sk[s]) => (lg'[1] = lg[1] /\ sk'[1] = sk[1] /\ sk'[2] = sk[2])]_vars
Names == \A r, q \in 0..11 : r # q => FileName("basic", "all", "x", ".log", 12, r) # FileName("basic", "all", "x", ".log", 12, q)
=============================================================================
