CONSTANTS K = 4 MaxLen = 6 MaxP = 3
SPECIFICATION Spec
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
