SPECIFICATION GSpec
CONSTANTS
  Ops <- AllOps
  Kinds <- AllKinds
  NI = 2
  NP = 2
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
