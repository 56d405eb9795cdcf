CONSTANTS MaxN = 3
 Vals = {0, 3, 1000000}
 Targets = {0, 2}
 MaxM = 3
 Strict = TRUE
SPECIFICATION Spec
INVARIANTS KnnIs MulIs Carry
CHECK_DEADLOCK FALSE
