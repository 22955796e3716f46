SPECIFICATION Spec
INVARIANTS LayoutFree Out
CHECK_DEADLOCK FALSE
