SPECIFICATION Spec
CONSTANT MaxLen = 6
CHECK_DEADLOCK FALSE
INVARIANTS Alphabet NoTrailing Alternates CellsEverywhere CellCounts Balanced ScoreRange ScoreClose
