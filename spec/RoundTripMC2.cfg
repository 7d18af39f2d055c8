SPECIFICATION Spec
CONSTANTS
  MaxCell = 1
  MaxCells = 2
  MaxRows = 2
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip StrictToo QuoteRepresentsAll EscapeRepresentsCells
