SPECIFICATION Spec
CONSTANTS
  Chunks = 2
  Ops = 2
  MaxTick = 2
  Resets = TRUE
  Nested = TRUE
INVARIANT AnswerOK
CHECK_DEADLOCK FALSE
