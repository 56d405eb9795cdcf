CONSTANTS CB = 8
 K = 3000
 P = 4
 ZeroBits = 1
SPECIFICATION Spec
INVARIANT HalfUnit
CHECK_DEADLOCK FALSE
