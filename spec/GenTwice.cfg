SPECIFICATION Spec
CONSTANTS
  Ctxs <- GCtxs
  UseKinds <- GKinds
  Plains <- GPlains
  MaxSites <- GSites
  MaxDepth <- GDepth
  MaxPasses <- GPasses
INVARIANTS EmitDone Fixed Stable SameEnd FirstIs
CHECK_DEADLOCK FALSE
