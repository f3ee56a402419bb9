SPECIFICATION Spec
INVARIANTS ScanIsSelection GetIsRecord
CHECK_DEADLOCK FALSE
