CONSTANTS Confs = {1, 2} MaxRuns = 0 Flush = TRUE Scan = TRUE K = 3
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
