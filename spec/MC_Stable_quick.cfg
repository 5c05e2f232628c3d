SPECIFICATION Spec
CONSTANTS Halves = 0 MaxHistory = 3
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
