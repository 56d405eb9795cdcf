CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS ArrayOK SumOk MinOk MaxOk
CHECK_DEADLOCK FALSE
