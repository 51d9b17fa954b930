SPECIFICATION TSpec
CONSTANTS
  Leaves = {}
  Forms = {}
  Heads = {}
  Cons = {}
  MaxTokens = 0
  MaxDepth = 0
INVARIANTS Report WellNested NoEmptyBlock OrderKept PreAdjacent NoteMarks
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
