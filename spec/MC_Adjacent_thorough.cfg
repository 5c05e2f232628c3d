SPECIFICATION Spec
CONSTANTS MaxVertices = 4 MaxFaces = 2 MaxEntries = 3 MaxOffset = 9
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
