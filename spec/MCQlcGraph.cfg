SPECIFICATION SpecM
INVARIANT NoClauseBroken
ACTION_CONSTRAINT Edges
VIEW View
CHECK_DEADLOCK FALSE
