SPECIFICATION Spec
INVARIANTS Content Clean OneEach
VIEW NoHistory
