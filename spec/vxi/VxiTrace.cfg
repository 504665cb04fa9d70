SPECIFICATION TSpec
CONSTANTS
  Conns = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
  Devs = {1, 2}
  Chans = {1, 2, 3, 4, 5, 6, 7, 8}
INVARIANTS Sane
CONSTRAINT Note
POSTCONDITION Report
CHECK_DEADLOCK FALSE
