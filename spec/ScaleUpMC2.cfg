SPECIFICATION Spec
CONSTANTS MaxLen = 7
          Alphabet = {97, 44, 10, 13}
          Times = 2
INVARIANTS FormRepeated FormStretched DetectRepeated
CHECK_DEADLOCK FALSE
