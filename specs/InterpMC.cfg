SPECIFICATION Spec
CONSTANTS W = 4  K1 = 5  K2 = 2  N = 2  C = 1
INVARIANTS Bounded Window Right
CHECK_DEADLOCK FALSE
