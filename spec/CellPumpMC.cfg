SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet = {49, 46, 44, 45, 58, 47, 97, 32, 36, 64, 34, 92}
INVARIANT Pumping
CHECK_DEADLOCK FALSE
