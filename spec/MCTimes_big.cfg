SPECIFICATION Spec
CONSTANTS
  Chunks = 3
  Ops = 3
  MaxTick = 2
  Resets = TRUE
  Nested = FALSE
INVARIANT AnswerOK
CHECK_DEADLOCK FALSE
