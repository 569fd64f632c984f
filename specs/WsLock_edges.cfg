SPECIFICATION SpecS
CONSTANTS L = 3 S = 2 Rounds = 1
INVARIANTS FirstEdge
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
