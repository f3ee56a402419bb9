SPECIFICATION Spec
INVARIANTS Prefix Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
