SPECIFICATION Spec
VIEW view
INVARIANTS Serves NotTooStrict Untouched
CHECK_DEADLOCK FALSE
