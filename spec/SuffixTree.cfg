SPECIFICATION Spec
INVARIANTS LookupIsExact NeverWrong RadixShape
CHECK_DEADLOCK FALSE
