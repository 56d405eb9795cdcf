CONSTANTS K = 3
          Dims = {1, 2, 3}
          Betas = {0, 2}
SPECIFICATION Spec
INVARIANTS NoStale RowMajor
CHECK_DEADLOCK FALSE
