SPECIFICATION Spec
CONSTANTS Majors = {1, 2, 3}
 Minors = {0, 1, 2}
 MaxTracks = 2
 MaxLen = 3
 Lasts = {"minus1", "zero", "minus0", "below1", "one", "above1", "two", "tiny", "minustiny", "inf", "minusinf", "nan", "half"}
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
