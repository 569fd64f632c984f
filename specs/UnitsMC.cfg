SPECIFICATION Spec
CONSTRAINT Constr
INVARIANTS Laws Names
CHECK_DEADLOCK FALSE
