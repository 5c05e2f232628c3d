SPECIFICATION Spec
CONSTANTS MaxLen = 3
          MaxAt = 8
          Chunks = {0, 1, 2, 3}
INVARIANTS Ends
           Same
           Harmless
           Reached
PROPERTIES Progress
CHECK_DEADLOCK FALSE
