SPECIFICATION TSpec
CONSTANTS
  Kinds1 = {}
  Kinds3 = {}
  Kinds4 = {}
  Kinds5 = {}
  Kinds6 = {}
  Pats <- AllPats
  Places <- AllPlaces
INVARIANTS Report Mirror LeftOut NoPartial
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
