CONSTANTS CB = 8
 K = 300
 P = 3
 ZeroBits = 1
SPECIFICATION Spec
INVARIANT HalfUnit
CHECK_DEADLOCK FALSE
