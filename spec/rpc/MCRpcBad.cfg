SPECIFICATION MSpec
CONSTANTS
  Answers <- AnswersAny
  Ops <- AllOps
  Kinds <- FewKinds
  NI = 2
  NP = 2

PROPERTIES OwnReply
CHECK_DEADLOCK FALSE
