SPECIFICATION MSpec
CONSTANTS
  C = {1, 2, 3}
  Kind <- K3
  M = 2
  Waits <- WAll
  Keys <- K0
  Gone <- GoneKeeps
VIEW MView
INVARIANTS OneOwner Truth Sane
PROPERTIES Excluded Once
CHECK_DEADLOCK FALSE
