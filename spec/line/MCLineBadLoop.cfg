SPECIFICATION MSpec
CONSTANTS
  Negotiated <- AlwaysAnswers
  Kinds <- OneTel
  Alphabet <- NegBytes
  L = 5
  NX = 0
INVARIANTS NoLoops
CHECK_DEADLOCK FALSE
