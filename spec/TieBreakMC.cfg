SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Alphabet = {97, 44, 39, 92}
INVARIANTS OneOfThem OtherSizes Symmetric SameDelim QuoteRule Harmless Reducing
CHECK_DEADLOCK FALSE
