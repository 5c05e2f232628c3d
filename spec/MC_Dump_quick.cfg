SPECIFICATION Spec
CONSTANTS
  MaxFiles = 2
  Depths = {0, 1}
INVARIANTS Complete Once Emit
CHECK_DEADLOCK FALSE
