SPECIFICATION Spec
CONSTANT CheckStats = TRUE
INVARIANT Invariant
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
