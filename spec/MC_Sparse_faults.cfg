SPECIFICATION Spec
CONSTANTS
  Depth = 2
  MaxOlds = 99
  MaxH = 2
  BitOf <- KeyBit
  ZeroH <- SymZero
  SLeafH <- SymSLeaf
  SNodeH <- SymSNode
  Keys <- AllKeys
  Vals = {1, 2}
  MaxFaults = 2
  RemoveFirst = FALSE
INVARIANTS RootOK StoreHolds SelfCert HeightsOK PresentOK CostOK DropsOK
PROPERTIES Refines
CONSTRAINT FewOlds
CHECK_DEADLOCK FALSE
VIEW NoStale
