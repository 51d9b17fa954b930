SPECIFICATION Spec
CONSTANTS
  Kinds1 = {"none", "py", "hpy", "bin", "pybad"}
  Kinds3 = {"dir", "hdir", "pycache", "py"}
  Kinds4 = {"py", "req", "pynoread"}
  Kinds5 = {"none", "dir", "pyhelp"}
  Kinds6 = {"none", "bin", "py"}
  Pats = {"none", "N1x,N5x", "N3x", "N[46]x", "\\.py$", "zzz,N3x.*\\.bin"}
  Places = {"fresh", "stale", "blocked", "self", "f:new"}
INVARIANTS TypeOK Mirror OnePerPath HelperIff LeftOut ErrIff NoPartial
PROPERTIES InputKept Terminates
CHECK_DEADLOCK FALSE
