SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
 MaxVal = 3
 MaxText = 3
 MaxExt = 3
 Algo = "max"
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
