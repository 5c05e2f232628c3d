SPECIFICATION Spec
CONSTANTS MaxObjects = 5 MaxTokens = 3 MaxGroups = 2 MaxEntries = 3
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
