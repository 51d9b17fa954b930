SPECIFICATION Spec
CONSTANTS
  UseKinds <- GKinds
  HeadKinds <- GHeads
  Places <- GPlaces
  MaxRuns <- GRuns
  MaxFiles <- GFiles
  MaxUses <- GUses
  Dirs <- GDirs
INVARIANTS EmitDone Served NoExcess
CHECK_DEADLOCK FALSE
