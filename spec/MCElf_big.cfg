CONSTANTS P = 14
          Depth = 20
          AMax = 4
          G = 0
SPECIFICATION Spec
INVARIANT Recovers
CHECK_DEADLOCK FALSE
