SPECIFICATION Spec
CONSTANTS
  Top = 10
  Threads = 2
  MaxPack = 4
INVARIANTS Once Nothing
CHECK_DEADLOCK FALSE
