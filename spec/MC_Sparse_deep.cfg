SPECIFICATION Spec
CONSTANTS
  Depth = 6
  MaxOlds = 99
  MaxH = 6
  BitOf <- KeyBit
  ZeroH <- SymZero
  SLeafH <- SymSLeaf
  SNodeH <- SymSNode
  Keys <- SomeKeys
  Vals = {1}
  MaxFaults = 2
  RemoveFirst = FALSE
INVARIANTS RootOK StoreHolds SelfCert HeightsOK PresentOK CostOK DropsOK
PROPERTIES Refines
CONSTRAINT FewOlds
CHECK_DEADLOCK FALSE
VIEW NoStale
