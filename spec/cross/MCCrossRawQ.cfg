SPECIFICATION MSpec
CONSTANTS
  C = {1, 2}
  Kind <- Kr
  M = 3
  Waits <- WAll
  Keys <- K0
VIEW MView
INVARIANTS OneOwner Truth Sane
PROPERTIES Excluded Once
CHECK_DEADLOCK FALSE
