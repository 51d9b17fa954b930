CONSTANTS Exts = {} Classes = {} MinFiles = 1 MaxFiles = 1 MaxItems = 1 Shapes = {} Hows = {} Modes = {} Runs = 1
INIT TInit
NEXT TNext
INVARIANTS Report NoDangling KeepsOthers Bindable DirectBound Booked
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
