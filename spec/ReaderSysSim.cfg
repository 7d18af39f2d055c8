SPECIFICATION SimSpec
CONSTANTS
  NReaders = 3
  MaxLen = 4
  MaxLines = 0
  NLines = 8
  MaxReq = 12
  Emit = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Independent CountOK Lazy PrintSim
