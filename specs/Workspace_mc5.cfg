SPECIFICATION Spec
CONSTANTS N = 5 K = {2,3,4} Emit = FALSE
VIEW vars
INVARIANTS TypeOK FreeListExact Disjoint RunsChained ContractHolds
PROPERTIES ContractSteps
CHECK_DEADLOCK FALSE
