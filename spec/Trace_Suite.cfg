SPECIFICATION Spec
CONSTANTS
  EmptyH <- ShaEmpty
  LeafH <- ShaLeaf
  NodeH <- ShaNode
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
