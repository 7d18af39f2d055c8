SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS QuotedOnlyText Stripped SameMatches Signs Percent
CHECK_DEADLOCK FALSE
