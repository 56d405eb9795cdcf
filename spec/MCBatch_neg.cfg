CONSTANTS NSets = 2 NCodecs = 2 MaxN = 1 Clear = "some" MaxRuns = 2
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
