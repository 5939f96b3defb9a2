SPECIFICATION Spec
CONSTANTS
  Workers <- MWorkers
  Dirs <- MDirs
  Docs <- MDocs
  Kids <- MKids
  Root = "r"
  Sub <- MSub
  Variant <- MVariant
CHECK_DEADLOCK FALSE
