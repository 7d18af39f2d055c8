SPECIFICATION SimSpec
CONSTANTS MaxRows = 0
 MaxCols = 0
 MaxOps = 6
INVARIANTS Whole PrintSim
CHECK_DEADLOCK FALSE
