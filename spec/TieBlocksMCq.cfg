SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Alphabet = {97, 44, 39, 92, 10}
CHECK_DEADLOCK FALSE
INVARIANT Ties
