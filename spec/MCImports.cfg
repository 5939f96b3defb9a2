SPECIFICATION SpecM
CONSTANTS Files <- One
          States = {"ok", "missing", "bad", "operation"}
INVARIANTS ScopeRight VerdictRight Meetable Cases
CHECK_DEADLOCK FALSE
