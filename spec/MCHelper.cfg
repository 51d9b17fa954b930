SPECIFICATION Spec
CONSTANTS
  UseKinds = {"plain", "max", "fpow", "fpow2"}
  HeadKinds = {"h"}
  Places = {"mod"}
  MaxRuns = 2
  MaxFiles = 2
  MaxUses = 2
  Dirs = {TRUE, FALSE}
INVARIANTS Served NoExcess
CHECK_DEADLOCK FALSE
