SPECIFICATION Spec
CONSTANTS Steps = 2  Ops = {"-", "<"}
INVARIANTS Frame Elementwise Aside Computed
CHECK_DEADLOCK FALSE
