SPECIFICATION GenSpec
CONSTANTS
  Kinds1 <- GK1
  Kinds3 <- GK3
  Kinds4 <- GK4
  Kinds5 <- GK5
  Kinds6 <- GK6
  Pats <- GPats
  Places <- GPlaces
INVARIANTS TypeOK Mirror OnePerPath HelperIff LeftOut ErrIff NoPartial EmitDone
CHECK_DEADLOCK FALSE
