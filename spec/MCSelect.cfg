SPECIFICATION Spec
CONSTANTS Most = 2
          Variant = ""
          Clean = FALSE
INVARIANTS Meetable Unordered Cases
CHECK_DEADLOCK FALSE
