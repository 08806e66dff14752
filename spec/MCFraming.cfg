CONSTANT Emit = TRUE
SPECIFICATION Spec
INVARIANTS Independence Progress Vectors
CHECK_DEADLOCK FALSE
