SPECIFICATION Spec
CONSTANTS
  Ctxs <- GCtxs
  UseKinds <- GKinds
  Plains <- GPlains
  MaxSites <- GSites
  MaxDepth <- GDepth
  Modes <- GModes
INVARIANTS EmitDone Balanced CountedOnce MarkedIff
CHECK_DEADLOCK FALSE
