SPECIFICATION Spec
CONSTANTS Exts <- GExts Classes <- GClasses MinFiles <- GMin MaxFiles <- GFiles MaxItems <- GItems Shapes <- GShapes Hows <- GHows Modes <- GModes Runs = 1
INVARIANTS EmitDone NoDangling KeepsOthers Bindable DirectBound Booked
CHECK_DEADLOCK FALSE
