SPECIFICATION Spec
CONSTANTS
  MaxH = 256
  BitOf <- BitAt
  ZeroH <- ShaZero
  SLeafH <- ShaSLeaf
  SNodeH <- ShaSNode
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
