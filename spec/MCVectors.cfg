CONSTANTS MaxN = 5
 Vals = {0, 3, 1000000}
 Targets = {0, 2}
 MaxM = 3
 Strict = FALSE
SPECIFICATION Spec
INVARIANTS KnnIs MulIs Carry
CHECK_DEADLOCK FALSE
