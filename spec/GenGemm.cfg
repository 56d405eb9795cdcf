CONSTANTS K = 3
          Dims = {1, 2, 3}
          Forms = {0}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
