SPECIFICATION Spec
CONSTANTS K = {1, 2, 3}
          V = {1, 2}
INVARIANT TypeOK
PROPERTY OneKey
CHECK_DEADLOCK FALSE
