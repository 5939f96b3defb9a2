SPECIFICATION PSpec
CONSTANT MaxHops = 2
INVARIANTS Safe OnlyVerified SuccessMeansInstalled Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
