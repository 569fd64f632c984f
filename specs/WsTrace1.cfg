SPECIFICATION Spec
CONSTANT CheckStats = FALSE
INVARIANT Invariant
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
