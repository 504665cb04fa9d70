SPECIFICATION MSpec
CONSTANTS
  Telnet <- TelnetNoErase
  Kinds <- OneTel
  Alphabet <- TelBytes
  L = 4
  NX = 0
INVARIANTS InOrder
CHECK_DEADLOCK FALSE
