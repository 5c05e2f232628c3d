SPECIFICATION Spec
CONSTANTS
  Majors = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 255, 256, 257, 258, 512, 513, 32768, 32769, 65535}
  Minors = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 32, 64, 128, 255, 256, 257, 258, 261, 262, 263, 264, 265, 266, 512, 1024, 32768, 32778, 65280, 65535}
INVARIANTS Exact Written
CHECK_DEADLOCK FALSE
