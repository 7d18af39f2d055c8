SPECIFICATION Spec
CONSTANTS
  Limits = {1, 2, 3, 4}
  Default = 4
  Threads = {1, 2, 3}
CHECK_DEADLOCK FALSE
