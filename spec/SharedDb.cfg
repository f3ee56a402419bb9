SPECIFICATION Spec
VIEW view
INVARIANTS OwnTable NotTooStrict
CHECK_DEADLOCK FALSE
