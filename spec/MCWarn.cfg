SPECIFICATION Spec
CONSTANTS
 Most = 3
 Variant = "right"
INVARIANTS Exact OnlyAdds Named Cases
CHECK_DEADLOCK FALSE
