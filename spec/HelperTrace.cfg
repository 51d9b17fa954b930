SPECIFICATION TSpec
CONSTANTS
  UseKinds = {}
  HeadKinds = {}
  Places = {}
  MaxRuns = 0
  MaxFiles = 0
  MaxUses = 0
  Dirs = {}
INVARIANTS Report Served NoExcess
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
