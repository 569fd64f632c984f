SPECIFICATION SpecS
CONSTANTS L = 5 S = 3 Rounds = 2
INVARIANTS Exclusive InRange FlagsTell NeverFullForNothing
CHECK_DEADLOCK FALSE
