SPECIFICATION SpecM
CONSTANTS
 States = {"good", "mistaken", "cut", "unreadable", "nonutf", "outdir", "outlocked", "both", "badimport", "gone"}
 Globs = {"ok", "blocked", "locked", "nodir"}
 Program = "right"
INVARIANTS NoClauseBroken Intact Others Cases
CHECK_DEADLOCK FALSE
