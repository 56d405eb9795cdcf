CONSTANTS Words0 = 3 MaxFields = 2 NFiles = 2 Carry = FALSE Partial = FALSE
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
