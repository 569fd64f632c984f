SPECIFICATION Spec
CONSTANTS N = 5 K = {2,3,4} Emit = TRUE
VIEW vars
INVARIANTS InitPrint
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
