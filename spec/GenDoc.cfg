SPECIFICATION Spec
INVARIANTS Out GaveUp Sane
CHECK_DEADLOCK FALSE
