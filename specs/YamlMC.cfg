SPECIFICATION Spec
CONSTANT N = 5
INVARIANT Laws
CHECK_DEADLOCK FALSE
