SPECIFICATION FSpec
INVARIANTS Safe NoPartial Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
