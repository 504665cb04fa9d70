SPECIFICATION MSpec
CONSTANTS
  Ops <- TwoOps
  Kinds <- AllKinds
  NI = 2
  NP = 3
INVARIANTS Stops Fresh
PROPERTIES OwnReply Refusals
CHECK_DEADLOCK FALSE
