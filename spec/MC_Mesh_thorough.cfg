SPECIFICATION Spec
CONSTANTS MaxObjects = 4
 Wide1 = TRUE
INVARIANTS Tiles Apart AttrTile
CHECK_DEADLOCK FALSE
