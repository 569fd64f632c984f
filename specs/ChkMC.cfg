SPECIFICATION Spec
CONSTANTS Depth = 4
Steps = 12
INVARIANTS NoTerminate OnlyOneCheckInFlight Original ReportedOnce
CHECK_DEADLOCK FALSE
