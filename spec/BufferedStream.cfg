SPECIFICATION Spec
INVARIANTS ReadsAreRight SizesAgree FlushedIsComplete
CHECK_DEADLOCK FALSE
