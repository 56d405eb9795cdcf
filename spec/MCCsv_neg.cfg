CONSTANTS Cap = 2 MaxFields = 6 Checked = FALSE
SPECIFICATION Spec
INVARIANT Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
