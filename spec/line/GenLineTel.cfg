SPECIFICATION GSpec
CONSTANTS
  Kinds <- OneTel
  Alphabet <- TelBytes
  L = 1
  NX = 0
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
