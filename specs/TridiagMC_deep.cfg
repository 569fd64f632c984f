SPECIFICATION Spec
CONSTANTS
  P = 3
  N = 5
INVARIANTS Right Pivots
CHECK_DEADLOCK FALSE
