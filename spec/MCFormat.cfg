CONSTANTS MaxChunks = 2
 Late = FALSE
SPECIFICATION Spec
INVARIANTS IsFinished Found NotBefore NoPrefix
CHECK_DEADLOCK FALSE
