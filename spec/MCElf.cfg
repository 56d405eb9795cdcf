CONSTANTS P = 12
          Depth = 17
          AMax = 3
          G = 0
SPECIFICATION Spec
INVARIANT Recovers
CHECK_DEADLOCK FALSE
