SPECIFICATION Spec
CONSTANTS MaxRows = 5
  MaxCells = 5
INVARIANT ByLengths
CHECK_DEADLOCK FALSE
