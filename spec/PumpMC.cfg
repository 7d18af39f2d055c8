SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {97, 49, 44, 39, 92, 10, 46, 64}
  Pumped = {97, 49}
CHECK_DEADLOCK FALSE
INVARIANT Same
