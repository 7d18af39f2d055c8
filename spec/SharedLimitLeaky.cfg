SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Design = "leaky"
  Values = {1, 2}
  Unlimited = 9
  MaxOps = 3
INVARIANTS Preserved
CHECK_DEADLOCK FALSE
