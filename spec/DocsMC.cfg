SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT OneBuild
INVARIANT Faithful
INVARIANT NoDeadEnd
INVARIANT Newest
INVARIANT Tidy
