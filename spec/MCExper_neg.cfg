CONSTANTS Confs = {1, 2} MaxRuns = 5 Flush = FALSE Scan = TRUE K = 0
INVARIANTS Kept Apart
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
