SPECIFICATION Spec
CONSTANTS
  MaxH = 256
  BitOf <- BitAt
  ZeroH <- ShaZero
  SLeafH <- ShaSLeaf
  SNodeH <- ShaSNode
  EmptyH <- ShaEmpty
  LeafH <- ShaLeaf
  NodeH <- ShaNode
  FZero <- UZero
  FAdd <- UAdd
  FEmptyH <- ShaEmpty
  FLeafH <- ShaFLeaf
  FNodeH <- ShaFNode
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
