SPECIFICATION Spec
CONSTANTS MaxRank = 6  MaxExt = 2
INVARIANTS Same Distinct Right
CHECK_DEADLOCK FALSE
