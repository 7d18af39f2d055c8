SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet = {97, 49, 44, 39, 10, 46}
  Pumped = {97, 49}
CHECK_DEADLOCK FALSE
INVARIANT Same
