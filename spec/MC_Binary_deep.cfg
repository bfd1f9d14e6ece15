SPECIFICATION Spec
CONSTANTS
  EmptyH <- SymEmpty
  LeafH <- SymLeaf
  NodeH <- SymNode
  Data = {1, 2}
  MaxLeaves = 10
  Forks = FALSE
  Unrecoverable = FALSE
INVARIANTS CountOK FewPeaks RootOK PeaksOK ProofsOK StoreHolds StoreExact Loadable LoadedRoot
PROPERTIES Refines NothingLost WriteOnce
CHECK_DEADLOCK FALSE
