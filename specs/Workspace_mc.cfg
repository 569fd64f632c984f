SPECIFICATION Spec
CONSTANTS N = 4 K = {2,3} Emit = FALSE
VIEW vars
INVARIANTS TypeOK FreeListExact Disjoint RunsChained ContractHolds
PROPERTIES ContractSteps
CHECK_DEADLOCK FALSE
