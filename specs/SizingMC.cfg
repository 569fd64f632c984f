SPECIFICATION Spec
INVARIANTS Rules
CHECK_DEADLOCK FALSE
