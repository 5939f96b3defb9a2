SPECIFICATION Spec
CONSTANTS Deep = 3
          Variant = ""
INVARIANTS Told Rejected Meetable GlobalsMeetable Cases
POSTCONDITION Reached
CHECK_DEADLOCK FALSE
