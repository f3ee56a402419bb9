SPECIFICATION Spec
INVARIANTS PageIsCut NeverTooMany BadIsError WalkIsPrefix WalkIsComplete
PROPERTY WalkEnds
CHECK_DEADLOCK FALSE
