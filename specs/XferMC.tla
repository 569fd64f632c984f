------------------------------- MODULE XferMC -------------------------------
(* Every transfer to a view and back, over all small extents.                *)
EXTENDS Xfer, TLC
CONSTANTS Max, Ranks
VARIABLES h, v, back, d, t, dir, st
vars == <<h, v, back, d, t, dir, st>>
Cap == 70
Pad == 1000
Dims == UNION {[1..r -> 1..Max] : r \in Ranks}
Init == /\ d \in {x \in Dims : Prod(x) < Cap} /\ t \in BOOLEAN /\ dir \in {"c2f", "f2c"} /\ st = 0
        /\ h = [k \in 1..Cap |-> k] /\ back = [k \in 1..Cap |-> 0 - k] /\ v \in {[dims |-> d, n |-> n, mem |-> [k \in 1..Prod(PadDims(d, n)) |-> Pad + k]] : n \in {1, 2, 4}}
ToView == st = 0 /\ v' = [v EXCEPT !.mem = Received(h, d, v.n, t, dir, v.mem)] /\ st' = 1 /\ UNCHANGED <<h, back, d, t, dir>>
ToHost == st = 1 /\ back' = Sent(v, d, t, IF dir = "c2f" THEN "f2c" ELSE "c2f", back) /\ st' = 2 /\ UNCHANGED <<h, v, d, t, dir>>
Next == ToView \/ ToHost
Spec == Init /\ [][Next]_vars
\* what comes back is what was sent, and nothing beyond
RoundTrip == st = 2 => back = [k \in 1..Cap |-> IF k <= Prod(d) THEN k ELSE 0 - k]
\* every element is once in the view, padding is as before
Placed == st >= 1 => /\ {v.mem[k] : k \in DOMAIN v.mem} \cap 1..Cap = 1..Prod(d)
                     /\ \A k \in DOMAIN v.mem : v.mem[k] \in 1..Prod(d) \/ v.mem[k] = Pad + k
                     /\ \A i \in {Unrow(d, k) : k \in 0..(Prod(d) - 1)} :
                          v.mem[Row(PadDims(d, v.n), i) + 1] = (IF ~t THEN Row(d, i) ELSE IF dir = "f2c" THEN Col(d, i) ELSE LET w == Transposed(h, d, "c2f") IN w[Row(d, i) + 1] - 1) + 1
TwiceIsOnce == Transposed(Transposed(h, d, "c2f"), d, "f2c") = SubSeq(h, 1, Prod(d)) /\ Transposed(Transposed(h, d, "f2c"), d, "c2f") = SubSeq(h, 1, Prod(d))
=============================================================================
