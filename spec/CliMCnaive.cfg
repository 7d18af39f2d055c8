SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Naive
CHECK_DEADLOCK FALSE
