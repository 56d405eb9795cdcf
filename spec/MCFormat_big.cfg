CONSTANTS MaxChunks = 3
 Late = FALSE
SPECIFICATION Spec
INVARIANTS IsFinished Found NotBefore NoPrefix
CHECK_DEADLOCK FALSE
