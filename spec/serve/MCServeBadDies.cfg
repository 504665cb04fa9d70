SPECIFICATION LSpec
CONSTANTS
  C = {1, 2, 3}
  Lims = {1, 2}
  P = 1
  NB = 1
  Accept <- AcceptDies
PROPERTIES Served
CHECK_DEADLOCK FALSE
