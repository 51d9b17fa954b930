SPECIFICATION Spec
CONSTANTS
  Ctxs = {"assign", "fstr"}
  UseKinds <- MK
  Plains = {"v", "3"}
  MaxSites = 2
  MaxDepth = 2
  Modes = {"default", "min"}
INVARIANTS Balanced CountedOnce MarkedIff MinKeeps
CHECK_DEADLOCK FALSE
