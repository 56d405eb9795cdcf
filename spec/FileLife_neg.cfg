CONSTANTS Chunks = 3
 CSize = 2
 Caps = {0, 1, 2, 3, 5, 100}
 FinalFlush = FALSE
SPECIFICATION Spec
INVARIANTS Safe Durable NoHoles
PROPERTY Ends
CHECK_DEADLOCK FALSE
