SPECIFICATION Spec
CONSTANTS Letters = {97, 98, 95}
 MaxLen = 4
 Which = "score"
INVARIANTS ScoreLaw Symmetric
CHECK_DEADLOCK FALSE
