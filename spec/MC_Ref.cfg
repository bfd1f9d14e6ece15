SPECIFICATION RNSpec
CONSTANTS
  EmptyH <- SymEmpty
  LeafH <- SymLeaf
  NodeH <- SymNode
  Data = {}
  MaxLeaves = 40
  MaxIndex = 42
INVARIANTS RootOK CountOK ProofOK
CHECK_DEADLOCK FALSE
