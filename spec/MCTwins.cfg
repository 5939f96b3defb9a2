SPECIFICATION Spec
CONSTANTS Menu <- Some
          Variant = ""
INVARIANTS Valid Meetable Cases
CHECK_DEADLOCK FALSE
