SPECIFICATION MSpec
CONSTANTS
  Data <- DataPops
  Kinds <- OneTel
  Alphabet <- TelBytes
  L = 4
  NX = 0
INVARIANTS InOrder
CHECK_DEADLOCK FALSE
