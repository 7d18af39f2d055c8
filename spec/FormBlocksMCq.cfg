SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet = {97, 44, 39, 10, 13}
CHECK_DEADLOCK FALSE
INVARIANT FormBlocks
