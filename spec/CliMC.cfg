SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Reads Apart
CHECK_DEADLOCK FALSE
