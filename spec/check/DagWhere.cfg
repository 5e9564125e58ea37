SPECIFICATION TSpec
INVARIANT Reached Far
CONSTANT Mutation = "none"
CHECK_DEADLOCK FALSE
