CONSTANT B = 8
SPECIFICATION TSpec
INVARIANTS RepOK RoundTrip
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
