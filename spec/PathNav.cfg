SPECIFICATION Spec
INVARIANTS WalkIsOutcome Resumable
PROPERTY Ends
CHECK_DEADLOCK FALSE
