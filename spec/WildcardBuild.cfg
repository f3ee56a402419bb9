SPECIFICATION Spec
INVARIANTS OnlyCompleteIsMarked
PROPERTIES EventuallyMarked
CHECK_DEADLOCK FALSE
