SPECIFICATION Spec
INVARIANTS Precedence Emit
CHECK_DEADLOCK FALSE
