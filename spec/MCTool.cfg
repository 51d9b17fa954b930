CONSTANTS Via = "cli" Opts <- MOpts MaxArgs = 2 OneSpelling = FALSE Projects <- MProjects
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS PresentationIsInert SummaryOnce NothingOnError Uncounted Balanced Perm
