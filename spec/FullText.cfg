SPECIFICATION Spec
INVARIANT IndexIsScan
CHECK_DEADLOCK FALSE
