SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Vals = {1}
  MaxFaults = 1
  MaxOlds = 3
INVARIANTS RootsOK StoreHolds SelfCert PresentOK
PROPERTIES Refines
CONSTRAINT FewOlds
CHECK_DEADLOCK FALSE
VIEW View
