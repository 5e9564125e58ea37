SPECIFICATION Spec
CONSTANT L = 3
INVARIANTS AcceptsExactlyCycles Bounded
PROPERTY Stops
CHECK_DEADLOCK FALSE
