SPECIFICATION SpecB
CONSTANTS N = 140 K = {2,3,5} Emit = FALSE Length = 240
INVARIANTS PrintWalk GoodB
CHECK_DEADLOCK FALSE
