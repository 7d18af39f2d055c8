SPECIFICATION Spec
CONSTANTS MaxLen = 4
  Times = 3
INVARIANT Steady
CHECK_DEADLOCK FALSE
