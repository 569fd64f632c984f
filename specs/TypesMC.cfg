SPECIFICATION Spec
CONSTANTS
  T = {"a","b","c"}
  L = 4
INVARIANTS Lists Stops Built
CHECK_DEADLOCK FALSE
