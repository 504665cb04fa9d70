SPECIFICATION GSpec
CONSTANTS
  Kinds <- OneRaw
  Alphabet <- FewBytes
  L = 1
  NX = 1
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
