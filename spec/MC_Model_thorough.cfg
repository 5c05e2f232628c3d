SPECIFICATION Spec
CONSTANTS MaxAim = 24 MaxOrient = 24
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
