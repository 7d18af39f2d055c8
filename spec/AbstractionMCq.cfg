SPECIFICATION Spec
CONSTANT MaxLen = 5
CHECK_DEADLOCK FALSE
INVARIANTS Alphabet NoTrailing Alternates CellsEverywhere CellCounts Balanced ScoreRange ScoreClose
