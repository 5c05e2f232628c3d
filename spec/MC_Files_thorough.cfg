SPECIFICATION Spec
CONSTANTS Depth = 2
INVARIANTS Kept
CHECK_DEADLOCK FALSE
