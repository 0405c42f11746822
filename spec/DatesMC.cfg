SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Back
INVARIANT Calendar
INVARIANT Ordered
INVARIANT ReadBack
INVARIANT Parts
