SPECIFICATION Spec
CONSTANTS
 Most = 6
 Alphabet = {"*", "/", "a", "n"}
 Variant = "right"
INVARIANTS Closed Kept Verbatim Cases
CHECK_DEADLOCK FALSE
