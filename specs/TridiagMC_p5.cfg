SPECIFICATION Spec
CONSTANTS
  P = 5
  N = 3
INVARIANTS Right Pivots
CHECK_DEADLOCK FALSE
