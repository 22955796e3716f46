SPECIFICATION Spec
INVARIANT Out
PROPERTY Apart
CHECK_DEADLOCK FALSE
