SPECIFICATION Spec
CONSTANTS
  P = 3
  N = 4
INVARIANTS Right Pivots
CHECK_DEADLOCK FALSE
