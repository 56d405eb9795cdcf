SPECIFICATION Spec
CONSTANTS
  Chunks = 2
  Ops = 2
  MaxTick = 2
  Resets = FALSE
  Nested = FALSE
INVARIANT AnswerOK
CHECK_DEADLOCK FALSE
