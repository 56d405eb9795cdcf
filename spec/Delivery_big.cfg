SPECIFICATION Spec
CONSTANTS
  Totals = {0, 3, 8, 16, 19, 33, 47}
  Caps = {0, 1, 2, 3}
  Pieces = {1, 3, 7, 8, 9, 16}
  Free = 5
INVARIANTS ChunksOK Conserved Emit
CHECK_DEADLOCK FALSE
