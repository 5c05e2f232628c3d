SPECIFICATION Spec
CONSTANTS MaxCount = 2 Orders = 1 Bases = {400, 2896} Cuts = {0, 5} NameModes = {"reverse", "shared"}
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
