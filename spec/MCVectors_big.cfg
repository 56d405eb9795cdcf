CONSTANTS MaxN = 6
 Vals = {0, 1, 3, 1000000}
 Targets = {0, 2}
 MaxM = 4
 Strict = FALSE
SPECIFICATION Spec
INVARIANTS KnnIs MulIs Carry
CHECK_DEADLOCK FALSE
