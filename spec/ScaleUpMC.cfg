SPECIFICATION Spec
CONSTANTS MaxLen = 6
          Alphabet = {97, 44, 39, 92, 10}
          Times = 3
INVARIANTS FormRepeated FormStretched TieStretched TieRepeated DetectRepeated
CHECK_DEADLOCK FALSE
