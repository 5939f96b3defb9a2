SPECIFICATION Spec
CONSTANTS Variant = ""
          Most = 1
INVARIANTS Stable Strict Right Case
CHECK_DEADLOCK FALSE
