SPECIFICATION Spec
CONSTANTS
  Majors = {0, 1, 2, 3, 256, 257, 65535}
  Minors = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 256, 257, 266, 65535}
INVARIANTS Exact Written
CHECK_DEADLOCK FALSE
