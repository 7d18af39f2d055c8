SPECIFICATION Spec
CONSTANTS MaxRows = 2
 MaxCols = 2
 MaxOps = 1
INVARIANTS Whole Twice
CHECK_DEADLOCK FALSE
