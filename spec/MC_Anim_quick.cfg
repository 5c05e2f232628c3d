SPECIFICATION Spec
CONSTANTS MaxTracks = 1
 MaxGroups = 2
 MaxNodes = 2
 Small = FALSE
 Minors = {0, 1}
INVARIANTS Emit Tiled Pays
CHECK_DEADLOCK FALSE
