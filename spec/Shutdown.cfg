SPECIFICATION Spec
INVARIANTS Kept Success
PROPERTIES Closes Ends
CHECK_DEADLOCK FALSE
