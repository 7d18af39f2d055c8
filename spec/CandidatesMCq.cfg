SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS FromText EscapeUsed Restricted MaskedSound
CHECK_DEADLOCK FALSE
