SPECIFICATION Spec
CONSTANTS Design = "atomic"
 Pieces = 3
 NFiles = 3
INVARIANTS Intact Clean Ordered ModeKept Unneeded
PROPERTIES Refines
CHECK_DEADLOCK FALSE
