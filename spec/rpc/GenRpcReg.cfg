SPECIFICATION GSpec
CONSTANTS
  Ops <- RegOps
  Kinds <- AllKinds
  NI = 1
  NP = 3
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
