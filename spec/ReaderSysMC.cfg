SPECIFICATION Spec
CONSTANTS
  NReaders = 2
  MaxLen = 1
  MaxLines = 1
  MaxReq = 4
  Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Independent CountOK Lazy
PROPERTIES OthersUntouched
