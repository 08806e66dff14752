SPECIFICATION Spec
INVARIANTS WellFormed RunsAgree FirstAgrees
PROPERTY Refines
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS W = 6
EMIT = TRUE
