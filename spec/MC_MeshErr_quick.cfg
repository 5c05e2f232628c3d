SPECIFICATION Spec
CONSTANTS Objects = 2
INVARIANTS Emit Exact
CHECK_DEADLOCK FALSE
