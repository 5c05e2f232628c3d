SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet = {0, 65, 128, 143, 144, 159, 160, 191, 193, 194, 223, 224, 225, 237, 239, 240, 241, 244, 255}
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
