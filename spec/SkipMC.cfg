SPECIFICATION Spec
CONSTANTS N = 4
          MaxP = 3
          Unit = 3
          MaxT = 3
          Rule = "<"
INVARIANT SameBest
CHECK_DEADLOCK FALSE
