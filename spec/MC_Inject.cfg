SPECIFICATION Spec
CONSTANTS
  Prefixed = TRUE
  MaxLen = 4
INVARIANT Injective
CHECK_DEADLOCK FALSE
