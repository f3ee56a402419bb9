SPECIFICATION Spec
INVARIANT UsedIsComplete
CHECK_DEADLOCK FALSE
