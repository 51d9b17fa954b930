CONSTANTS Via = "lib" Opts <- MOpts MaxArgs = 4 OneSpelling = FALSE Projects <- MProjects
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS PresentationIsInert SummaryOnce NothingOnError Uncounted Balanced Perm
