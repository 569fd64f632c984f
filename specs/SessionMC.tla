------------------------------ MODULE SessionMC -----------------------------
EXTENDS Session
VARIABLES s, inits, fins
vars == <<s, inits, fins>>
Init == s = Fresh /\ inits = 0 /\ fins = 0
Count(t) == /\ s' = t /\ inits' = inits + (IF s.st # "on" /\ t.st = "on" THEN 1 ELSE 0) /\ fins' = fins + (IF s.st = "on" /\ t.st = "off" THEN 1 ELSE 0)
Next == \/ s.st # "off" /\ \E k \in 0..2 : Count(Start(s, k, 3)) \/ \E b \in BOOLEAN : Count(TStart(s, k, 3, b))
        \/ Count(Stop(s))
        \/ \E t \in {"FE_INVALID", "FE_INEXACT"} : Count([s EXCEPT !.en = @ \cup {t}]) \/ Count([s EXCEPT !.en = @ \ {t}])
Spec == Init /\ [][Next]_vars
Once == inits <= 1 /\ fins <= inits
Threads == (s.st = "on") = (s.thr > 0)
\* the traps change by what is asked only, and only a test session adds the usual ones
Traps0 == [][s'.en # s.en => (Usual \subseteq s'.en \/ s'.st = s.st)]_vars
=============================================================================
