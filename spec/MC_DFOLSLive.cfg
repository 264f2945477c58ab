SPECIFICATION Spec
CONSTANTS
  Configs <- MCConfigs
  FinVals <- MCFin
  BadVals <- MCBad
  BUG <- MCBug
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
