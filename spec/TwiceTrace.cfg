SPECIFICATION TSpec
CONSTANTS
  Ctxs = {}
  UseKinds = {}
  Plains = {}
  MaxSites = 0
  MaxDepth = 0
  MaxPasses = 9
INVARIANTS Report Fixed Stable
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
