SPECIFICATION Spec
INVARIANT Check
VIEW View
CHECK_DEADLOCK FALSE
