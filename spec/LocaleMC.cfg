SPECIFICATION Spec
INVARIANTS First Ahead Behind Spelled
CHECK_DEADLOCK FALSE
