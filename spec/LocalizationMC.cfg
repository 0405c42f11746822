SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT First
INVARIANT Order
INVARIANT Lazy
