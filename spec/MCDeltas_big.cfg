CONSTANTS N = 3
 Lo <- LoV
 Hi = 6
 Off = 2
 Early = FALSE
SPECIFICATION Spec
INVARIANTS FilterOK AggOK ReadBack Tight
CHECK_DEADLOCK FALSE
