----------------------------- MODULE XferTrace -----------------------------
(* Recorded histories of a few host arrays and views.  Each record tells all *)
(* contents after the call.                                                  *)
EXTENDS Xfer, TraceCommon
VARIABLES H, V, l
vars == <<H, V, l>>
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.event = e /\ l' = l + 1
Init == H = <<>> /\ V = <<>> /\ l = 1
New == Is("New") /\ H' = R.h /\ V' = R.v /\ \A k \in DOMAIN R.v : Len(R.v[k].mem) = Prod(PadDims(R.v[k].dims, R.v[k].n))
Fill == Is("Fill") /\ H' = R.h /\ R.v = V /\ UNCHANGED V
\* new views may have any padding; existing ones keep theirs
ToView == /\ Is("H2D") /\ R.h = H /\ UNCHANGED H
          /\ Len(R.v) = Len(V)
          /\ \A k \in DOMAIN V :
               IF k > R.c THEN R.v[k] = V[k]
               ELSE LET d == R.dims[k]  n == V[k].n  old == IF R.mode = "new" THEN R.v[k].mem ELSE V[k].mem IN
                    /\ (R.mode = "pre" => V[k].dims = d)
                    /\ R.v[k].dims = d /\ R.v[k].n = n /\ Len(R.v[k].mem) = Prod(PadDims(d, n))
                    /\ R.v[k].mem = Received(H[k], d, n, R.t, R.dir, old)
          /\ V' = R.v
ToHost == /\ Is("D2H") /\ R.v = V /\ UNCHANGED V
          /\ R.h = [k \in DOMAIN H |-> IF k > R.c THEN H[k] ELSE Sent(V[k], R.dims[k], R.t, R.dir, H[k])]
          /\ H' = R.h
Trans == /\ Is("Trans") /\ R.v = V /\ UNCHANGED V
         /\ R.h = [H EXCEPT ![R.to] = LET s == Transposed(H[R.from], R.dims, R.dir) IN [k \in DOMAIN @ |-> IF k <= Prod(R.dims) THEN s[k] ELSE @[k]]]
         /\ H' = R.h
\* numbers of arrays, sizes and views that do not agree are an error, and change nothing
Bad == Is("Bad") /\ R.threw /\ R.h = H /\ R.v = V /\ UNCHANGED <<H, V>>
Next == New \/ Fill \/ ToView \/ ToHost \/ Trans \/ Bad
Spec == Init /\ [][Next]_vars
=============================================================================
