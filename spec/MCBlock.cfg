SPECIFICATION Spec
CONSTANTS
  Leaves = {"exp", "annexp", "imp"}
  Forms = {"assign"}
  Heads = {"plain", "exp", "ann"}
  Cons = {"if", "try", "def"}
  MaxTokens = 6
  MaxDepth = 2
INVARIANTS WellNested NoEmptyBlock OrderKept PreAdjacent NoteMarks
CHECK_DEADLOCK FALSE
