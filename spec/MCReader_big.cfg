CONSTANTS N = 2
 MaxLen = 4
 Kinds = {1, 2}
 Rewinds = TRUE
SPECIFICATION Spec
INVARIANTS HistoryFree CacheOK
CHECK_DEADLOCK FALSE
