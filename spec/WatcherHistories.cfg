SPECIFICATION Spec
INVARIANTS Only Quiet
CHECK_DEADLOCK FALSE
