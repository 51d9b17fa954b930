SPECIFICATION TSpec
CONSTANTS
  Apis = {}
  Entry <- TEntry
  Calls <- TCalls
INVARIANTS Report Arrives NoClash ByBinding NeverSilent
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
