SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Names = {0, 1, 3, 4, 5, 15, 16, 17}
INVARIANTS Aligned Disjoint InHeader Refused Finished
CHECK_DEADLOCK FALSE
