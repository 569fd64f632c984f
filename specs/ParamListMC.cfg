SPECIFICATION Spec
CONSTANT Depth = 4
CONSTRAINT Bounded
INVARIANTS Agrees Laws
CHECK_DEADLOCK FALSE
