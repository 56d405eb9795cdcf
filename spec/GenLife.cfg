CONSTANTS K = 4
          NSeg = 2
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
