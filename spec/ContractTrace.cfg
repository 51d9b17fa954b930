SPECIFICATION TSpec
CONSTANTS
  Forms = {}
INVARIANTS Report
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
