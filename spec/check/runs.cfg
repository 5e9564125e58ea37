SPECIFICATION TSpec
INVARIANT Reached Far
CHECK_DEADLOCK FALSE
