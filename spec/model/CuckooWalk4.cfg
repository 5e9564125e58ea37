SPECIFICATION Spec
CONSTANT L = 4
INVARIANTS AcceptsExactlyCycles Bounded
PROPERTY Stops
CHECK_DEADLOCK FALSE
