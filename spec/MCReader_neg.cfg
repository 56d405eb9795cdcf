CONSTANTS N = 3
 MaxLen = 2
 Kinds = {1, 2}
 Rewinds = FALSE
SPECIFICATION Spec
INVARIANTS HistoryFree CacheOK
CHECK_DEADLOCK FALSE
