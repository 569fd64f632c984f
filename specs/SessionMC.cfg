SPECIFICATION Spec
INVARIANTS Once Threads
PROPERTY Traps0
CHECK_DEADLOCK FALSE
