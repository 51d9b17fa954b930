INIT KInit
NEXT KNext
CONSTANTS
  UseKinds <- GKinds
  HeadKinds <- GHeads
  Places <- GPlaces
  MaxRuns <- GRuns
  MaxFiles <- GFiles
  MaxUses <- GUses
  Dirs <- GDirs
INVARIANTS EmitKind
CHECK_DEADLOCK FALSE
