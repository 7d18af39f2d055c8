SPECIFICATION Spec
CONSTANTS
  MaxCell = 2
  MaxCells = 2
  MaxRows = 1
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip StrictToo QuoteRepresentsAll EscapeRepresentsCells
