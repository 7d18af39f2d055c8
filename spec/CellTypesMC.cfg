SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS QuotedOnlyText Stripped SameMatches Signs Percent
CHECK_DEADLOCK FALSE
