SPECIFICATION TSpec
CONSTANTS
  Kinds <- AllKinds
  MaxRuns = 9
INVARIANTS Report Isolated
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
