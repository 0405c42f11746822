SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Once
INVARIANT InOrder
INVARIANT AtEnd
INVARIANT Identity
INVARIANT Drop
INVARIANT Copy
INVARIANT Variation
INVARIANT Symmetric
