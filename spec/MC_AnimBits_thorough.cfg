SPECIFICATION Spec
CONSTANTS Types = {"Transform", "UvTransform", "Float", "PatternIndex", "Boolean", "Vector4"}
 FlagSet = {0, 2, 7, 8, 13, 15}
 Widths = {0, 1, 3, 8, 13, 24, 25, 32}
 Strides = {1, 3, 5}
 Starts = {0, 1, 2, 3, 4, 5, 6, 7}
 MaxFrames = 1
 Patterns = {"odd", "last"}
INVARIANTS Recovered Emit
CHECK_DEADLOCK FALSE
