SPECIFICATION Spec
INVARIANTS Complete Same Out
CHECK_DEADLOCK FALSE
