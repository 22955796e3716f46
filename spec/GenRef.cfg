SPECIFICATION Spec
INVARIANTS Faithful Lossless Out
CHECK_DEADLOCK FALSE
