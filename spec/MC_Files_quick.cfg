SPECIFICATION Spec
CONSTANTS Depth = 1
INVARIANTS Kept
CHECK_DEADLOCK FALSE
