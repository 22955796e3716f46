SPECIFICATION Spec
INVARIANTS Sane Done
CHECK_DEADLOCK FALSE
