CONSTANTS Confs = {1, 2} MaxRuns = 6 Flush = TRUE Scan = TRUE K = 0
INVARIANTS Kept Apart
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
