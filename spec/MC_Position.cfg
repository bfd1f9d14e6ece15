SPECIFICATION Spec
CONSTANTS
  MaxHeight = 8
  MaxLeaves = 40
INVARIANTS Arithmetic Wide Paths
CHECK_DEADLOCK FALSE
