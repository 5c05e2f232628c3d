SPECIFICATION Spec
CONSTANTS MaxParams = 3
 Vers = {"V15", "V16"}
INVARIANTS Distributed Kept_ Emit
CHECK_DEADLOCK FALSE
