SPECIFICATION Spec
CONSTANTS MaxRows = 4
 MaxCols = 2
 Max = 1
INVARIANTS CountIsVote Nested ColumnsAlone Bounded OrderIrrelevant Extremes
CHECK_DEADLOCK FALSE
