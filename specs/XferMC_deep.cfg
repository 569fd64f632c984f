SPECIFICATION Spec
CONSTANTS
  Max = 6
  Ranks = {1, 2, 3}
INVARIANTS RoundTrip Placed TwiceIsOnce
CHECK_DEADLOCK FALSE
