SPECIFICATION Spec
INVARIANTS First Absent ErrorIsDue
PROPERTY Answers
CHECK_DEADLOCK FALSE
