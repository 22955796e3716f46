SPECIFICATION Spec
INVARIANTS Out
CHECK_DEADLOCK FALSE
