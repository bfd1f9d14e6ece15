SPECIFICATION Spec
CONSTANTS
  FZero <- UZero
  FAdd <- UAdd
  FEmptyH <- ShaEmpty
  FLeafH <- ShaFLeaf
  FNodeH <- ShaFNode
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
