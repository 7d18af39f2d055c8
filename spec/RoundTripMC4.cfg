SPECIFICATION Spec
CONSTANTS
  MaxCell = 4
  MaxCells = 1
  MaxRows = 1
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip StrictToo QuoteRepresentsAll EscapeRepresentsCells
