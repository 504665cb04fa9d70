SPECIFICATION GSpec
CONSTANTS
  C = {1, 2, 3}
  Kind <- K3
  M = 1
  Waits <- WAll
  Keys <- K0
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
