CONSTANTS MaxChunks = 2
 Late = TRUE
SPECIFICATION Spec
INVARIANTS IsFinished Found NotBefore NoPrefix
CHECK_DEADLOCK FALSE
