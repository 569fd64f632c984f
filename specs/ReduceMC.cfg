SPECIFICATION Spec
CONSTANTS
  Top = 7
  Threads = 2
  MaxPack = 4
INVARIANTS Once Nothing
CHECK_DEADLOCK FALSE
