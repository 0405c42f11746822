SPECIFICATION Spec
VIEW View
INVARIANTS AsAlone OwnAct
PROPERTY Stays
CHECK_DEADLOCK FALSE
