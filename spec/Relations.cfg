SPECIFICATION Spec
INVARIANTS Delivered ErrorIsDue
PROPERTY Ends
CHECK_DEADLOCK FALSE
