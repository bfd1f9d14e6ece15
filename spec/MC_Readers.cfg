SPECIFICATION Spec
CONSTANTS
  MaxLeaves = 8
INVARIANTS InLine RootsOK PeaksOK ProofsOK Loadable StoreExact
PROPERTIES Refines WriteOnce
CHECK_DEADLOCK FALSE
