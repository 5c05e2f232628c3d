SPECIFICATION Spec
CONSTANTS MaxLen = 3
          MaxAt = 5
          Chunks = {0, 1, 2}
INVARIANTS Ends
           Same
           Harmless
           Reached
PROPERTIES Progress
CHECK_DEADLOCK FALSE
