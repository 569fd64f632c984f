SPECIFICATION Spec
CONSTANTS MaxRank = 4  MaxExt = 3
INVARIANTS Often Constant Zero Same One
CHECK_DEADLOCK FALSE
