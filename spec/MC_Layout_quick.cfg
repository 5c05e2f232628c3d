SPECIFICATION Spec
CONSTANTS
  Types = {"PtrU16", "PtrUnit", "Chain", "Abs16", "Arrs", "Bufs", "Enums", "Vars", "Pads", "Aligned", "Reprs", "Tuple", "GenSmall", "Lists", "Fixed", "Strs", "PtrOpts", "PadEnums", "Wides", "TuplePads"}
  Breadth = 4
  Starts <- MoreStarts
INVARIANTS Aligned Forward Disjoint DataPointer SameAsW ReadsBack
PROPERTY Monotone
CHECK_DEADLOCK FALSE
