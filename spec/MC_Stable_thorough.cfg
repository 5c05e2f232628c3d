SPECIFICATION Spec
CONSTANTS Halves = 0 MaxHistory = 4
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
