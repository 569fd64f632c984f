SPECIFICATION Spec
CONSTANTS
  MaxSize = 24
  MaxRank = 3
INVARIANTS Bijective SameSize SameMemory Slices Same Inverse Packs
CHECK_DEADLOCK FALSE
