SPECIFICATION Spec
CONSTANT L = 6
INVARIANTS AcceptsExactlyCycles Bounded
PROPERTY Stops
CHECK_DEADLOCK FALSE
