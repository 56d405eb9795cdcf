SPECIFICATION Spec
CONSTANTS
  Totals = {0, 5, 8, 19, 40}
  Caps = {0, 1, 2}
  Pieces = {1, 3, 8, 11}
  Free = 4
INVARIANTS ChunksOK Conserved Emit
CHECK_DEADLOCK FALSE
