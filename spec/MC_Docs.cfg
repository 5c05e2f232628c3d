SPECIFICATION Spec
CONSTANTS
  Depth = 2
INVARIANTS Refused Meaning Emit
CHECK_DEADLOCK FALSE
