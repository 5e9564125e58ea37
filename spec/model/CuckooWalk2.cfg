SPECIFICATION Spec
CONSTANT L = 2
INVARIANTS AcceptsExactlyCycles Bounded
PROPERTY Stops
CHECK_DEADLOCK FALSE
