SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Agrees
INVARIANT Sound
INVARIANT Resolved
PROPERTY Failing
