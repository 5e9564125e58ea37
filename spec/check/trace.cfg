INIT TInit
NEXT TNext
INVARIANT Matches
CHECK_DEADLOCK FALSE
