SPECIFICATION Spec
CONSTANTS MaxBones = 5
INVARIANTS Emit Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
