SPECIFICATION Spec
INVARIANT Out
CHECK_DEADLOCK FALSE
