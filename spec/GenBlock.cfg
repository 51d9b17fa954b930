SPECIFICATION Spec
CONSTANTS
  Leaves <- GLeaves
  Forms <- GForms
  Heads <- GHeads
  Cons <- GCons
  MaxTokens <- GTokens
  MaxDepth <- GDepth
INVARIANTS EmitDone WellNested NoEmptyBlock OrderKept PreAdjacent NoteMarks
CHECK_DEADLOCK FALSE
