SPECIFICATION Spec
CONSTANTS Values = {0, 1, 3} Dims = {2, 3, 4} MaxLen = 2
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
