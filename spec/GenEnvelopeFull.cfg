SPECIFICATION Spec
CONSTANTS Full = TRUE
INVARIANTS EmitDone
CHECK_DEADLOCK FALSE
