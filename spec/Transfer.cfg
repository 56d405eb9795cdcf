SPECIFICATION Spec
CONSTANTS
  Sizes <- AllSizes
  Half = 2
  RPieces = {1, 3}
  WPieces = {1, 2}
  RFree = 3
  WFree = 3
  Seeks = TRUE
INVARIANTS Whole PrefixOnly Blame
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
