SPECIFICATION GSpec
CONSTANTS
  Kinds <- OneTel
  Alphabet <- NegBytes
  L = 0
  NX = 0
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
