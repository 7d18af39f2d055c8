SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Design = "swap"
  Values = {1, 2}
  Unlimited = 9
  MaxOps = 4
INVARIANTS Preserved
CHECK_DEADLOCK FALSE
