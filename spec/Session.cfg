SPECIFICATION Spec
INVARIANTS Counted Out
PROPERTY Stable
CHECK_DEADLOCK FALSE
