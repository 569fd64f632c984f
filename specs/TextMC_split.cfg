SPECIFICATION Spec
CONSTANTS Letters = {97, 98, 95}
 MaxLen = 5
 Which = "split"
INVARIANTS SplitJoin TrimLaw TokenLaw
CHECK_DEADLOCK FALSE
