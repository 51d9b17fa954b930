SPECIFICATION Spec
CONSTANTS
  Kinds = {"plain", "helpA", "helpB", "dirA", "dirAB", "failhelp", "fail", "build", "extproj", "wrap", "use", "failext", "tmp", "mix"}
  MaxRuns = 3
INVARIANTS Isolated HelperDefined OwnHelper
CHECK_DEADLOCK FALSE
