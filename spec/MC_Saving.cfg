SPECIFICATION Spec
CONSTANTS
  Depth = 3
INVARIANTS Untouched Caused Refused Emit
PROPERTY Stays
CHECK_DEADLOCK FALSE
