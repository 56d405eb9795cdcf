CONSTANTS CB = 2
 N = 3
 Lo <- LoV
 Hi = 5
 Skip = FALSE
SPECIFICATION Spec
INVARIANTS CompareOK ExtremeOK SumIs ReadBack
CHECK_DEADLOCK FALSE
