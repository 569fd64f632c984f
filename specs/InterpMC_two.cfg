SPECIFICATION Spec
CONSTANTS W = 2  K1 = 3  K2 = 1  N = 1  C = 2
INVARIANTS Bounded Window Right
CHECK_DEADLOCK FALSE
