SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Alphabet = {97, 49, 44, 39, 92, 10}
INVARIANTS AllFit SkipHarmless
CHECK_DEADLOCK FALSE
