SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Files = 2
 Alphabet = {97, 44, 59, 34, 10}
INVARIANTS Preserved TwoIffChanged OnlyInPlace NotYet Again TransposeTwice
CHECK_DEADLOCK FALSE
