SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Alphabet = {0, 65, 127, 128, 143, 144, 160, 191, 194, 224, 237, 240, 244, 245}
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
