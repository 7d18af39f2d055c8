SPECIFICATION Spec
CONSTANTS
  Limits = {1, 2, 3, 4}
  Default = 4
CHECK_DEADLOCK FALSE
