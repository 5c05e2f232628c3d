SPECIFICATION Spec
CONSTANTS Depth = 2 Classes = {"ssbh", "own"}
INVARIANTS Untouched Lossless Generations Emit
CHECK_DEADLOCK FALSE
