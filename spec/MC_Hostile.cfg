SPECIFICATION Spec
INVARIANT Fits
INVARIANT Storable
INVARIANT Emit
CONSTANT Kinds = {}
CHECK_DEADLOCK FALSE
