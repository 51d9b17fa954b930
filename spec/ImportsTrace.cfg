SPECIFICATION TSpec
CONSTANTS
  ApiSet = {}
  PlaceSet = {}
  MaxStmts = 0
  MaxNames = 0
  MaxUses = 0
  CtxSet = {}
  Locals = {""}
  AsNames = {}
INVARIANTS Report SpellingFree NothingLost NoDangling
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
