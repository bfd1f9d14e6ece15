SPECIFICATION Spec
CONSTANTS
  Fees = {0, 1}
  FData = {1}
  MaxItems = 3
INVARIANTS RootsOK SelfCert HoldsRoot
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
