SPECIFICATION TSpec
INVARIANT Reached
CONSTANT Mutation = "none"
CHECK_DEADLOCK FALSE
