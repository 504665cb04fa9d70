SPECIFICATION TSpec
CONSTANTS
  Procs = {1, 2, 3, 4}
  Subs = {1, 2, 3, 4, 5, 6, 7, 8}
  Room = 2
  MaxPub = 2
VIEW View
INVARIANTS NotOld
CONSTRAINT Note
POSTCONDITION Report
CHECK_DEADLOCK FALSE
