SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Vals = {1}
  MaxFaults = 0
  MaxOlds = 3
INVARIANTS RootsOK StoreHolds SelfCert PresentOK
PROPERTIES Refines
CONSTRAINT FewOlds
CHECK_DEADLOCK FALSE
VIEW View
