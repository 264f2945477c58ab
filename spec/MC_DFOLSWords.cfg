SPECIFICATION Spec
CONSTANTS
  Configs <- MCConfigs
  FinVals <- MCFin
  BadVals <- MCBad
  BUG <- MCBug
INVARIANTS Emit C02_Budget C03_Evaluated C03_Slots C04_Best C08_Finite C10_Small C10_Rhoend C10_Maxfun C10_Unsucc C10_Runs C10_Success C10_Flag C17_Incumbent C18_Rho C18_Npt
CHECK_DEADLOCK FALSE
