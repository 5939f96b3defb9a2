SPECIFICATION Spec
CONSTANTS
  Workers <- MWorkers
  Dirs <- MDirs
  Docs <- MDocs
  Kids <- MKids
  Root = "r"
  Sub <- MSub
  Variant <- MVariant
INVARIANTS TypeOK CountersOk AtMostOnce NoneLost PendingOk Inv
CHECK_DEADLOCK FALSE
