SPECIFICATION Spec
CONSTANTS Letters = {97, 65, 98, 95}
 MaxLen = 3
 Which = "order"
INVARIANTS OrderLaw
CHECK_DEADLOCK FALSE
