SPECIFICATION Spec
CONSTANTS
  MaxChars = 5
  MaxLines = 3
  Limit = 4
  StrictSet = {FALSE, TRUE}
CHECK_DEADLOCK FALSE
INVARIANTS
  TypeOK
  DoubledQuoteOnly
  NoQuoteNoQuoting
  NoEscapeNoEscaping
  StrictErrorsOnlyInStrict
  LimitErrorsOnlyAtLimit
  NewlineErrorOnlyAfterCR
  NothingInvented
  PlainConservation
  OrdinaryConserved
  NothingDropped
PROPERTIES
  CellsFinal
  ErrorsFinal
