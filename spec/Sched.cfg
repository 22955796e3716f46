SPECIFICATION Spec
INVARIANTS NonInterference Out
CHECK_DEADLOCK FALSE
