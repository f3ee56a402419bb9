SPECIFICATION Spec
INVARIANTS Content Clean
