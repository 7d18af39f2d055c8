SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {97, 44, 39, 10, 13}
CHECK_DEADLOCK FALSE
INVARIANT FormBlocks
