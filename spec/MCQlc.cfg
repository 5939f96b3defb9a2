SPECIFICATION SpecM
INVARIANT NoClauseBroken
VIEW View
CHECK_DEADLOCK FALSE
