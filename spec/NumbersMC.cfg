SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Nearest
INVARIANT DigitCounts
INVARIANT Significance
INVARIANT Groups
INVARIANT Signs
