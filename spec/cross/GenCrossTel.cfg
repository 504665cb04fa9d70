SPECIFICATION GSpec
CONSTANTS
  C = {1, 2}
  Kind <- Kt
  M = 1
  Waits <- WAll
  Keys <- KAll
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
