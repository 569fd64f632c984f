SPECIFICATION Spec
CONSTANTS W = 6  K1 = 6  K2 = 3  N = 2  C = 1
INVARIANTS Bounded Window Right
CHECK_DEADLOCK FALSE
