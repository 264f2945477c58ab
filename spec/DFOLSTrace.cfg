SPECIFICATION Spec
CONSTANTS
  Configs <- TConfigs
  FinVals <- TFin
  BadVals <- TBad
  BUG <- TBug
CONSTRAINT OnPath
INVARIANTS Accept
CHECK_DEADLOCK FALSE
