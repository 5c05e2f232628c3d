SPECIFICATION Spec
CONSTANTS MaxObjects = 3
 Wide1 = FALSE
INVARIANTS Tiles Apart AttrTile
CHECK_DEADLOCK FALSE
