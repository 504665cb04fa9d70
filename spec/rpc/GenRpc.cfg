SPECIFICATION GSpec
CONSTANTS
  Ops <- AllOps
  Kinds <- AllKinds
  NI = 2
  NP = 3
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
