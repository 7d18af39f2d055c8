SPECIFICATION Spec
CONSTANTS MaxLen = 6
          Alphabet = {97, 44, 39, 34, 10, 13, 92}
INVARIANTS Reads Column Closed NoEscapes
CHECK_DEADLOCK FALSE
