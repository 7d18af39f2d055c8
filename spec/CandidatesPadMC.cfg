SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT Same
CHECK_DEADLOCK FALSE
