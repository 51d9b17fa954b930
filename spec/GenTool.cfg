CONSTANTS Via <- GVia Opts <- GOpts MaxArgs <- GArgs OneSpelling <- GOne Projects <- GProjects
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EmitDone
