SPECIFICATION Spec
CONSTANTS
  MaxLines = 3
  MaxCells = 2
  MaxOps = 5
CHECK_DEADLOCK FALSE
INVARIANTS InOrder AllSeen NamesStable NoErrors RoundTrip
