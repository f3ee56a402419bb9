SPECIFICATION Spec
INVARIANTS ScanIsRef ReadIsRecord RoundTrip
CHECK_DEADLOCK FALSE
