CONSTANT N = 2
SPECIFICATION Spec
INVARIANTS ArrayOK SumOk MinOk MaxOk
CHECK_DEADLOCK FALSE
