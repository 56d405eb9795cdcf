CONSTANTS N = 3
 Lo <- LoV
 Hi = 4
 Off = 1
 Early = FALSE
SPECIFICATION Spec
INVARIANTS FilterOK AggOK ReadBack Tight
CHECK_DEADLOCK FALSE
