SPECIFICATION Spec
POSTCONDITION AllChecked
CHECK_DEADLOCK FALSE
