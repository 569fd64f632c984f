SPECIFICATION Spec
INVARIANTS Right RoundTrip Stops
CHECK_DEADLOCK FALSE
