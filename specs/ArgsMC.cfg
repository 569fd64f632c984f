SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS NothingLost Single Every Spelling
CHECK_DEADLOCK FALSE
