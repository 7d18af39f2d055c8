SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Rewind = TRUE
INVARIANT SameTable
CHECK_DEADLOCK FALSE
