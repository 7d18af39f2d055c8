SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Design = "explicit"
  Values = {1, 2}
  Unlimited = 9
  MaxOps = 5
INVARIANTS Preserved Unseen DetectUnlimited
CHECK_DEADLOCK FALSE
