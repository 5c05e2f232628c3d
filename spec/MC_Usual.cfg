SPECIFICATION Spec
CONSTANTS
  Depth = 4
INVARIANTS Kept Usually NeverTouched Emit
CHECK_DEADLOCK FALSE
