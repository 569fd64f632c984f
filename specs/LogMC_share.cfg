SPECIFICATION Spec
CONSTANT Share = TRUE
INVARIANTS Right Monotone Names
PROPERTY Isolated
CHECK_DEADLOCK FALSE
