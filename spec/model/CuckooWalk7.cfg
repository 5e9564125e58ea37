SPECIFICATION Spec
CONSTANT L = 7
INVARIANTS AcceptsExactlyCycles Bounded
PROPERTY Stops
CHECK_DEADLOCK FALSE
