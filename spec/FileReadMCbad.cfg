SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Rewind = FALSE
INVARIANT SameTable
CHECK_DEADLOCK FALSE
