CONSTANTS K = 3
          Dims = {1, 3}
          Betas = {0}
SPECIFICATION Spec
INVARIANTS NoStale RowMajor
CHECK_DEADLOCK FALSE
