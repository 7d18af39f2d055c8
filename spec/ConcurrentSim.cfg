SPECIFICATION SimSpec
CONSTANTS
  Limits = {1, 2, 3, 4}
  Default = 4
  Threads = {1, 2, 3}
  NCalls = 99
  NKinds = 13
  MaxLen = 40
INVARIANTS PrintSim Settled
CHECK_DEADLOCK FALSE
