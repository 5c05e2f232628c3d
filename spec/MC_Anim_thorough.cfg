SPECIFICATION Spec
CONSTANTS MaxTracks = 2
 MaxGroups = 1
 MaxNodes = 2
 Small = FALSE
 Minors = {1}
INVARIANTS Emit Tiled Pays
CHECK_DEADLOCK FALSE
