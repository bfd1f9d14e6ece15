SPECIFICATION Spec
CONSTANTS
  Depth = 3
  MaxOlds = 99
  MaxH = 3
  BitOf <- KeyBit
  ZeroH <- SymZero
  SLeafH <- SymSLeaf
  SNodeH <- SymSNode
  Keys <- AllKeys
  Vals = {1}
  MaxFaults = 1
  RemoveFirst = FALSE
INVARIANTS RootOK StoreHolds SelfCert HeightsOK PresentOK CostOK DropsOK
PROPERTIES Refines
CONSTRAINT FewOlds
CHECK_DEADLOCK FALSE
VIEW NoStale
