SPECIFICATION Spec
CONSTANT Share = FALSE
INVARIANTS Right Monotone Names
PROPERTY Isolated
CHECK_DEADLOCK FALSE
