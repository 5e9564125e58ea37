SPECIFICATION Spec
CONSTANT L = 1
INVARIANTS AcceptsExactlyCycles Bounded
PROPERTY Stops
CHECK_DEADLOCK FALSE
