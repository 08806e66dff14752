SPECIFICATION Spec
INVARIANT Check
PROPERTY Ends
CHECK_DEADLOCK FALSE
