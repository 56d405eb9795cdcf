CONSTANTS K = 4
          Dims = {1, 3}
          Forms = {0, 1, 2}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
