SPECIFICATION Spec
INVARIANT AnswersAreRight
CHECK_DEADLOCK FALSE
