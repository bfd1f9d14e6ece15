SPECIFICATION GSpec
CONSTANTS
  Depth = 3
  MaxOlds = 99
  MaxOps = 99
  MaxH = 3
  BitOf <- KeyBit
  ZeroH <- SymZero
  SLeafH <- SymSLeaf
  SNodeH <- SymSNode
  Keys <- AllKeys
  Vals = {1}
  MaxFaults = 0
  RemoveFirst = FALSE
VIEW NoHist
CONSTRAINT Short
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
