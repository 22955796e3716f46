SPECIFICATION Spec
INVARIANT Out
INVARIANT Alone
CHECK_DEADLOCK FALSE
