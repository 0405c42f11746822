SPECIFICATION Spec
VIEW TextOnly
CHECK_DEADLOCK FALSE
INVARIANT Total
INVARIANT Nested
INVARIANT JunkVerbatim
INVARIANT Contained
INVARIANT CommentsAttach
INVARIANT Dedented
INVARIANT LineEnds
INVARIANT EntryAgrees
