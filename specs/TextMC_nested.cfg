SPECIFICATION Spec
CONSTANTS Letters = {91, 93, 44, 97}
 MaxLen = 7
 Which = "nested"
INVARIANTS NestedLaw
CHECK_DEADLOCK FALSE
