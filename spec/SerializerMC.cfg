SPECIFICATION Spec
VIEW TextOnly
CHECK_DEADLOCK FALSE
INVARIANT RoundTrip
INVARIANT JunkKept
