SPECIFICATION MSpec
CONSTANTS
  Kinds <- Both
  Alphabet <- FewBytes
  L = 3
  NX = 2
INVARIANTS InOrder Complete Finished NoLoops Served
PROPERTIES Entitled
CHECK_DEADLOCK FALSE
