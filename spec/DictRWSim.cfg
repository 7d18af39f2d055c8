SPECIFICATION SimSpec
CONSTANTS
  MaxLines = 6
  MaxCells = 4
  MaxOps = 9
CHECK_DEADLOCK FALSE
INVARIANTS InOrder AllSeen NamesStable NoErrors RoundTrip PrintSim
