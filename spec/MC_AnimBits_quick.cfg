SPECIFICATION Spec
CONSTANTS Types = {"Transform", "UvTransform", "Float", "PatternIndex", "Boolean", "Vector4"}
 FlagSet = {0, 1, 2, 4, 5, 8, 13, 15}
 Widths = {0, 1, 3, 8, 13, 24, 25, 32}
 Strides = {1, 3}
 Starts = {0, 1, 2, 4, 5, 7}
 MaxFrames = 2
 Patterns = {"odd"}
INVARIANTS Recovered Emit
CHECK_DEADLOCK FALSE
