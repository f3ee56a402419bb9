SPECIFICATION Spec
INVARIANTS BaseOk Normal Resolved Unique Ended Filterable
CHECK_DEADLOCK FALSE
