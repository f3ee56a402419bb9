SPECIFICATION Spec
INVARIANT Right
PROPERTY Answered
CHECK_DEADLOCK FALSE
