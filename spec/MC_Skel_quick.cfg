SPECIFICATION Spec
CONSTANTS MaxBones = 4
INVARIANTS Emit Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
