SPECIFICATION Spec
CONSTANTS
  ApiSet = {"relu", "foo", "envw", "osj", "npt", "tools", "mytl", "locd", "dsf"}
  PlaceSet = {"top", "func"}
  MaxStmts = 2
  MaxNames = 1
  MaxUses = 2
  CtxSet = {"assign"}
  Locals = {"", "datasets"}
  AsNames <- MAs
INVARIANTS SpellingFree NothingLost NoDangling
CHECK_DEADLOCK FALSE
