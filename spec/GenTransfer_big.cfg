SPECIFICATION Spec
CONSTANTS
  Sizes <- AllSizes
  Half = 2
  RPieces = {1, 3}
  WPieces = {1, 2}
  RFree = 4
  WFree = 4
  Seeks = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
