CONSTANTS N = 2
 MaxLen = 3
 Kinds = {1}
 Rewinds = TRUE
SPECIFICATION Spec
VIEW OpView
INVARIANTS HistoryFree CacheOK Emit
CHECK_DEADLOCK FALSE
