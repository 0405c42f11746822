SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Coherent
INVARIANT FirstWins
