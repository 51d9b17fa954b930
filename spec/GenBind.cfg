SPECIFICATION Spec
CONSTANTS
  Apis <- GApis
  Entry <- GEntry
  Calls <- GCalls
INVARIANTS Emit Arrives NoClash ByBinding NeverSilent
CHECK_DEADLOCK FALSE
