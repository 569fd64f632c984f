SPECIFICATION Spec
CONSTANTS
  V = {1,2,3}
  L = 4
INVARIANTS Valid Complete Inverse Laws
CHECK_DEADLOCK FALSE
