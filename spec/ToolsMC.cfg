SPECIFICATION Spec
VIEW View
INVARIANTS Settled ViaJson Same Colored
CHECK_DEADLOCK FALSE
