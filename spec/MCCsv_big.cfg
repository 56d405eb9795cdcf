CONSTANTS Cap = 3 MaxFields = 8 Checked = TRUE
SPECIFICATION Spec
INVARIANT Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
