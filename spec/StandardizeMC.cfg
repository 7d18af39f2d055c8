SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Files = 1
 Alphabet = {97, 44, 59, 34, 10}
INVARIANTS Preserved TwoIffChanged OnlyInPlace NotYet Again TransposeTwice
CHECK_DEADLOCK FALSE
