SPECIFICATION Spec
INVARIANTS DecodeInvertsEncode Strict Emit
CHECK_DEADLOCK FALSE
