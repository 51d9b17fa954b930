SPECIFICATION Spec
CONSTANTS
  Ctxs = {"assign"}
  UseKinds <- MK
  Plains = {"v", "3"}
  MaxSites = 2
  MaxDepth = 2
  MaxPasses = 3
INVARIANTS Fixed Stable SameEnd FirstIs
CHECK_DEADLOCK FALSE
