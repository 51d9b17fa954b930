SPECIFICATION Spec
CONSTANTS Full = FALSE
INVARIANTS EmitDone
CHECK_DEADLOCK FALSE
