SPECIFICATION MSpec
CONSTANTS
  C = {1, 2}
  Kind <- K2
  M = 3
  Waits <- WAll
  Keys <- KAll
VIEW MView
INVARIANTS OneOwner Truth Sane
PROPERTIES Excluded Once
CHECK_DEADLOCK FALSE
