CONSTANTS Cap = 2 MaxFields = 6 Checked = TRUE
SPECIFICATION Spec
INVARIANT Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
