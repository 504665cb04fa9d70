SPECIFICATION MSpec
CONSTANTS
  Ops <- AllOps
  Kinds <- FewKinds
  NI = 2
  NP = 3
INVARIANTS Stops Fresh
PROPERTIES OwnReply Refusals
CHECK_DEADLOCK FALSE
