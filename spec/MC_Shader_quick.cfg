SPECIFICATION Spec
CONSTANTS MaxCount = 1 Orders = 0 Bases = {400, 2896} Cuts = {0, 5} NameModes = {"forward", "shared"}
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
