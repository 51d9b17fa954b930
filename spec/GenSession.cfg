SPECIFICATION Spec
CONSTANTS
  Kinds <- AllKinds
  MaxRuns <- MR
INVARIANTS Isolated Emit
CHECK_DEADLOCK FALSE
