SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Design = "swap"
  Values = {1, 2}
  Unlimited = 9
  MaxOps = 6
INVARIANTS Preserved Unseen DetectUnlimited
CHECK_DEADLOCK FALSE
