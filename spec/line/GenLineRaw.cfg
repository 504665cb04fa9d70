SPECIFICATION GSpec
CONSTANTS
  Kinds <- OneRaw
  Alphabet <- RawBytes
  L = 2
  NX = 0
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
