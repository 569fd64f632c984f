SPECIFICATION Spec
CONSTANTS N = 4 K = {2,3} Emit = TRUE
VIEW vars
INVARIANTS InitPrint
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
