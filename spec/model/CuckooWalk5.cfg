SPECIFICATION Spec
CONSTANT L = 5
INVARIANTS AcceptsExactlyCycles Bounded
PROPERTY Stops
CHECK_DEADLOCK FALSE
