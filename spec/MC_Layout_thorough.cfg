SPECIFICATION Spec
CONSTANTS
  Types = {"PtrU16", "PtrUnit", "Chain", "Abs16", "Arrs", "Bufs", "Enums", "Vars", "Pads", "Aligned", "Reprs", "Tuple", "GenSmall", "Lists", "Fixed", "Strs", "StrIn", "AbsMix", "Ints", "Deep", "Math", "NonZero", "GenStr", "GenU16", "PtrOpts", "MagicE", "PadEnums", "Wides", "TuplePads", "Aligned2", "PadVars", "FieldPads"}
  Breadth = 5
  Starts <- MoreStarts
INVARIANTS Aligned Forward Disjoint DataPointer SameAsW ReadsBack
PROPERTY Monotone
CHECK_DEADLOCK FALSE
