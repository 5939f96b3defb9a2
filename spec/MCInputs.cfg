SPECIFICATION SpecM
CONSTANTS Types <- Pair
          Two = TRUE
INVARIANTS ClosureRight Meetable Excluded Cases
CHECK_DEADLOCK FALSE
