SPECIFICATION Spec
CONSTANTS
 Vals = {0, 1, 3, 4}
 Lines = 2
 Width = 2
 WithLinear = TRUE
INVARIANT Found
INVARIANT Sharp
CHECK_DEADLOCK FALSE
