SPECIFICATION Spec
INVARIANTS TableIsScan Sorted
PROPERTY EventuallyServes
CHECK_DEADLOCK FALSE
