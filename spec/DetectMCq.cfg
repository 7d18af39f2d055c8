SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Alphabet = {49, 44, 39, 92, 10}
INVARIANTS AllFit SkipHarmless
CHECK_DEADLOCK FALSE
