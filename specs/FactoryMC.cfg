SPECIFICATION Spec
CONSTANTS Keys = {1, 2} Creators = {1, 2} Depth = 9
INVARIANTS Agrees CreateRight
PROPERTY Isolated
CHECK_DEADLOCK FALSE
