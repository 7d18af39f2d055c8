SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Factor = 3
CHECK_DEADLOCK FALSE
INVARIANTS StretchedRead RepeatedRead StretchedAbstraction RepeatedAbstraction
INVARIANT RepeatedScore
