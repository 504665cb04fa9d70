SPECIFICATION MSpec
CONSTANTS
  C = {1, 2}
  Kind <- K2
  M = 4
  Waits <- WAll
  Keys <- K0
VIEW MView
INVARIANTS OneOwner Truth Sane
PROPERTIES Excluded Once
CHECK_DEADLOCK FALSE
