SPECIFICATION MSpec
CONSTANTS
  C = {1, 2, 3, 4}
  Lims = {1, 2, 3}
  P = 2
  NB = 3
VIEW MView
INVARIANTS AtMost Fair NotCut
PROPERTIES OnlyServed Order
CHECK_DEADLOCK FALSE
