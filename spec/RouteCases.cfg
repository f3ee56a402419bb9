SPECIFICATION Spec
INVARIANTS MatchesWhatItMeans IsTheSpecifiedMatch CapturesOfACut
CHECK_DEADLOCK FALSE
