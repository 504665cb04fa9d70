SPECIFICATION MSpec
CONSTANTS
  C = {1, 2, 3}
  Lims = {1, 2}
  P = 1
  NB = 2
VIEW MView
INVARIANTS AtMost Fair NotCut
PROPERTIES OnlyServed Order
CHECK_DEADLOCK FALSE
