SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Alphabet = {97, 44, 39, 92, 10, 13}
CHECK_DEADLOCK FALSE
INVARIANTS DetectBlocks FormBlocks
