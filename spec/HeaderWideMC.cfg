SPECIFICATION Spec
CONSTANTS MaxLen = 5
  Times = 3
INVARIANT Steady
CHECK_DEADLOCK FALSE
