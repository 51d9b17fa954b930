SPECIFICATION Spec
CONSTANTS Exts = {"ext_a"} Classes = {"Fn1"} MinFiles = 1 MaxFiles = 3 MaxItems = 3 Hows = {"call"} Shapes = {"setup", "imp", "load", "wrap", "from", "use"} Modes = {"default"} Runs = 1
INVARIANTS NoDangling KeepsOthers Bindable DirectBound Booked
CHECK_DEADLOCK FALSE
