CONSTANTS K = 5
          NSeg = 2
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
