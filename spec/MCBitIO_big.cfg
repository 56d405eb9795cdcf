CONSTANTS
  B = 3
  MaxBits = 7
  MaxRun = 3
SPECIFICATION Spec
INVARIANTS RepOK RoundTrip ReadIsSlice
PROPERTIES RefusedStays
CHECK_DEADLOCK FALSE
