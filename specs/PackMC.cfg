SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxOps = 2
CONSTRAINT Bound
INVARIANTS Untouched SetOps Order ShiftInverse ExtIn Mul
CHECK_DEADLOCK FALSE
