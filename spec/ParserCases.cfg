SPECIFICATION Spec
INVARIANTS IntegerIsAutomaton FloatIsAutomaton SplitIsAutomaton RouteTakesParsable
CHECK_DEADLOCK FALSE
