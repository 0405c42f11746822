SPECIFICATION Spec
VIEW TextOnly
CHECK_DEADLOCK FALSE
INVARIANT Whole
INVARIANT Classified
INVARIANT Rest
