CONSTANTS Confs = {1, 2} MaxRuns = 5 Flush = TRUE Scan = FALSE K = 0
INVARIANTS Kept Apart
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
