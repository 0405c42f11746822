SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT LastGiven
INVARIANT Refuses
INVARIANT Chained
PROPERTY Frozen
