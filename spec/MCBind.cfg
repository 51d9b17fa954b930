SPECIFICATION Spec
CONSTANTS
  Apis <- MApis
  Entry <- MEntry
  Calls <- Small
INVARIANTS Arrives NoClash ByBinding NeverSilent
CHECK_DEADLOCK FALSE
