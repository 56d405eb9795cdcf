CONSTANTS CB = 2
 N = 2
 Lo <- LoV
 Hi = 5
 Skip = TRUE
SPECIFICATION Spec
INVARIANTS CompareOK ExtremeOK SumIs ReadBack
CHECK_DEADLOCK FALSE
