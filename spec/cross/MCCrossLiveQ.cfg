SPECIFICATION LSpec
CONSTANTS
  C = {1, 2, 3}
  Kind <- K3
  M = 1
  Waits <- WAll
  Keys <- K0
PROPERTIES Served
CHECK_DEADLOCK FALSE
