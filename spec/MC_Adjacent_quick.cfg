SPECIFICATION Spec
CONSTANTS MaxVertices = 3 MaxFaces = 2 MaxEntries = 2 MaxOffset = 7
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
