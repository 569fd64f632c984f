SPECIFICATION Spec
CONSTANTS
 MaxLen = 8
 MaxVal = 4
 MaxText = 5
 MaxExt = 4
 Algo = "upper"
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
