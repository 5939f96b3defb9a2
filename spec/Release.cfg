SPECIFICATION MSpec
CONSTANT Variant = "right"
INVARIANTS Safe OnlyReleased Emit
PROPERTIES Ends Complete
CHECK_DEADLOCK FALSE
