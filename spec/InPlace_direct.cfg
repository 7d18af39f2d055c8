SPECIFICATION Spec
CONSTANTS Design = "direct"
 Pieces = 3
 NFiles = 3
INVARIANTS Intact Clean Ordered ModeKept Unneeded
PROPERTIES Refines
CHECK_DEADLOCK FALSE
