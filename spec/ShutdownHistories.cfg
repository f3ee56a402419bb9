SPECIFICATION Spec
INVARIANTS Kept Success
CHECK_DEADLOCK FALSE
