SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANT Same
CHECK_DEADLOCK FALSE
