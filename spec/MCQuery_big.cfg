CONSTANTS N = 4
 Ranks = {0, 2, 4, 6}
SPECIFICATION Spec
INVARIANTS FilterOK MatOK FMatOK SumIs MinIs MaxIs Done Split
CHECK_DEADLOCK FALSE
