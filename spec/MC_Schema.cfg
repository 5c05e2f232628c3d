SPECIFICATION Spec
INVARIANTS WellFormed Distinct
CHECK_DEADLOCK FALSE
