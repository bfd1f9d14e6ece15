SPECIFICATION Spec
CONSTANTS
  EmptyH <- SymEmpty
  LeafH <- SymLeaf
  NodeH <- SymNode
  MaxN = 40
INVARIANTS Complete Sound
CHECK_DEADLOCK FALSE
