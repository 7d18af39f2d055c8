SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS FromText EscapeUsed Restricted MaskedSound
CHECK_DEADLOCK FALSE
