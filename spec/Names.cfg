SPECIFICATION Spec
INVARIANTS Report
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
