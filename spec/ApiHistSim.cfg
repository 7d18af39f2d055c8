SPECIFICATION SimSpec
CONSTANTS
  Limits = {1, 2, 3, 4}
  Default = 4
  NCalls = 118
  NKinds = 15
  FirstBegin = 4
  MaxLen = 30
INVARIANT PrintSim
PROPERTY OnlySet
CHECK_DEADLOCK FALSE
