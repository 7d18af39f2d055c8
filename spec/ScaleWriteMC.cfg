SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Cells <- CellSet
  Factor = 3
INVARIANTS StretchedWrite RepeatedWrite
CHECK_DEADLOCK FALSE
