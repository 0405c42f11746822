SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Ends
INVARIANT Piecewise
INVARIANT Scalars
INVARIANT Each
