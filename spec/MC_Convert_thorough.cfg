SPECIFICATION Spec
CONSTANTS Depth = 3 Classes = {"ssbh", "own"}
INVARIANTS Untouched Lossless Generations Emit
CHECK_DEADLOCK FALSE
