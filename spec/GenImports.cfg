SPECIFICATION Spec
CONSTANTS
  ApiSet <- GApis
  PlaceSet <- GPlaces
  MaxStmts <- GStmts
  MaxNames <- GNames
  MaxUses <- GUses
  CtxSet <- GCtx
  Locals <- GLocals
  AsNames <- GAs
INVARIANTS EmitDone SpellingFree NothingLost NoDangling
CHECK_DEADLOCK FALSE
