SPECIFICATION Spec
CONSTANTS N = 4 Colors <- MCColors Vals = {0, 1, 2} Depth = 2
INVARIANTS Partition Laws Twice
CHECK_DEADLOCK FALSE
