CONSTANTS NSets = 2 NCodecs = 2 MaxN = 2 Clear = "all" MaxRuns = 3
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
