CONSTANTS N = 6
 Fresh = FALSE
SPECIFICATION Spec
INVARIANTS Q1OK SimpleOK Q6OK NearOK
CHECK_DEADLOCK FALSE
