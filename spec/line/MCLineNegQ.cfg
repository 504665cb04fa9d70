SPECIFICATION MSpec
CONSTANTS
  Kinds <- OneTel
  Alphabet <- NegBytes
  L = 5
  NX = 0
INVARIANTS InOrder Complete Finished NoLoops Served
PROPERTIES Entitled
CHECK_DEADLOCK FALSE
