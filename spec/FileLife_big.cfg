CONSTANTS Chunks = 12
 CSize = 5
 Caps = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 20, 33, 100}
 FinalFlush = TRUE
SPECIFICATION Spec
INVARIANTS Safe Durable NoHoles
PROPERTY Ends
CHECK_DEADLOCK FALSE
