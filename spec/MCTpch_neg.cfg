CONSTANTS N = 4
 Fresh = TRUE
SPECIFICATION Spec
INVARIANTS Q1OK SimpleOK Q6OK NearOK
CHECK_DEADLOCK FALSE
