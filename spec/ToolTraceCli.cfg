CONSTANTS Via = "cli" Opts <- TOpts MaxArgs = 0 OneSpelling = FALSE Projects = {}
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
INVARIANTS Report PresentationIsInert SummaryOnce NothingOnError Uncounted
POSTCONDITION Judged
