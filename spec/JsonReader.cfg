SPECIFICATION Spec
INVARIANTS ScanIsFile NeverTruncated GetIsObject
CHECK_DEADLOCK FALSE
