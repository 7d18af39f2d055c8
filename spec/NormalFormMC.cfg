SPECIFICATION Spec
CONSTANTS MaxLen = 7
          Alphabet = {97, 44, 39, 10}
INVARIANTS Reads Column Closed NoEscapes
CHECK_DEADLOCK FALSE
