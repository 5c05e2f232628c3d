SPECIFICATION Spec
CONSTANTS MaxObjects = 8 MaxTokens = 5 MaxGroups = 3 MaxEntries = 4
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
