SPECIFICATION Spec
CONSTANTS
 Most = 4
 Alphabet = {"a", "b", "A"}
 Variant = "right"
INVARIANTS Fewest Metric Close Cases
CHECK_DEADLOCK FALSE
