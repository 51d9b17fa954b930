SPECIFICATION TSpec
INVARIANTS Report
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
