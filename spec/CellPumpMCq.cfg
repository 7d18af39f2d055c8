SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Alphabet = {49, 46, 44, 58, 47, 97, 37, 36, 64, 34, 92}
INVARIANT Pumping
CHECK_DEADLOCK FALSE
