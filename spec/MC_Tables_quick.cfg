SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Names = {0, 1, 4, 15, 16}
INVARIANTS Aligned Disjoint InHeader Refused Finished
CHECK_DEADLOCK FALSE
