SPECIFICATION GSpec
CONSTANTS
  EmptyH <- SymEmpty
  LeafH <- SymLeaf
  NodeH <- SymNode
  Data = {1, 2}
  MaxLeaves = 4
  MaxOps = 9
  Forks = TRUE
  Unrecoverable = FALSE
VIEW NoHist
CONSTRAINT Short
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
