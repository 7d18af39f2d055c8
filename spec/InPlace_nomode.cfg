SPECIFICATION Spec
CONSTANTS Design = "nomode"
 Pieces = 3
 NFiles = 3
INVARIANTS Intact Clean Ordered ModeKept Unneeded
PROPERTIES Refines
CHECK_DEADLOCK FALSE
