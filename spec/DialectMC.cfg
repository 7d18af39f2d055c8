SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Laws Lossless Overriding
