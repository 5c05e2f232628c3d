SPECIFICATION Spec
CONSTANTS Objects = 3
INVARIANTS Emit Exact
CHECK_DEADLOCK FALSE
