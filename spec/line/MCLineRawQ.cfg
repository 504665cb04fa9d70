SPECIFICATION MSpec
CONSTANTS
  Kinds <- OneRaw
  Alphabet <- RawBytes
  L = 6
  NX = 0
INVARIANTS InOrder Complete Finished NoLoops Served
PROPERTIES Entitled
CHECK_DEADLOCK FALSE
