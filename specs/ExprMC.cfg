SPECIFICATION Spec
CONSTANTS Steps = 1  Ops = {"+", "-", "<"}
INVARIANTS Frame Elementwise Aside Computed
CHECK_DEADLOCK FALSE
