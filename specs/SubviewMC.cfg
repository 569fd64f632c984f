SPECIFICATION Spec
CONSTANTS MaxRank = 4  MaxExt = 3
INVARIANTS Same Distinct Right
CHECK_DEADLOCK FALSE
