SPECIFICATION Spec
CONSTANTS
  FZero = 0
  FAdd <- NatAdd
  FEmptyH <- SymEmpty
  FLeafH <- SymFLeaf
  FNodeH <- SymFNode
  Fees = {0, 1}
  FData = {1}
  MaxItems = 7
  Forgets = FALSE
INVARIANTS RootOK FewPeaks SelfCert HoldsRoot Total PeaksAgree
PROPERTIES Refines
CHECK_DEADLOCK FALSE
