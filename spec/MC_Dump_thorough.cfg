SPECIFICATION Spec
CONSTANTS
  MaxFiles = 3
  Depths = {0, 2}
INVARIANTS Complete Once Emit
CHECK_DEADLOCK FALSE
