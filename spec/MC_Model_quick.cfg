SPECIFICATION Spec
CONSTANTS MaxAim = 6 MaxOrient = 6
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
