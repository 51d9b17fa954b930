SPECIFICATION TSpec
CONSTANTS
  Ctxs = {}
  UseKinds = {}
  Plains = {}
  MaxSites = 0
  MaxDepth = 0
  Modes = {"default", "min"}
INVARIANTS Report Balanced CountedOnce MarkedIff
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
