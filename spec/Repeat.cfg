SPECIFICATION Spec
INVARIANT Report
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
