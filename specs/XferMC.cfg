SPECIFICATION Spec
CONSTANTS
  Max = 4
  Ranks = {1, 2, 3}
INVARIANTS RoundTrip Placed TwiceIsOnce
CHECK_DEADLOCK FALSE
