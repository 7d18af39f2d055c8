SPECIFICATION Spec
CONSTANTS Design = "copy"
 Pieces = 3
 NFiles = 3
INVARIANTS Intact Clean Ordered ModeKept Unneeded
PROPERTIES Refines
CHECK_DEADLOCK FALSE
