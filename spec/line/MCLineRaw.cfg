SPECIFICATION MSpec
CONSTANTS
  Kinds <- OneRaw
  Alphabet <- RawBytes
  L = 8
  NX = 0
INVARIANTS InOrder Complete Finished NoLoops Served
PROPERTIES Entitled
CHECK_DEADLOCK FALSE
