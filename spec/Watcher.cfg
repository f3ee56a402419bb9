SPECIFICATION Spec
INVARIANTS Only Quiet
PROPERTIES Stops
CHECK_DEADLOCK FALSE
