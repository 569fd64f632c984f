SPECIFICATION Spec
CONSTANTS L = 3 S = 2 Rounds = 2
INVARIANTS Exclusive InRange FlagsTell NeverFullForNothing
PROPERTIES EveryoneGets AllFree
CHECK_DEADLOCK FALSE
