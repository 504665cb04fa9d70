SPECIFICATION GSpec
CONSTANTS
  C = {1, 2, 3}
  Lims = {1, 2}
  P = 1
  NB = 2
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
