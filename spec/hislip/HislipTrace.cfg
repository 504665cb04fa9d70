SPECIFICATION TSpec
CONSTANTS
  Conns = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  Devs = {1, 2}
  Xs = {101, 102}
INVARIANTS LocksSane UniqueIds LimitHolds OneAsync LocksOfLive
CONSTRAINT Note
POSTCONDITION Report
CHECK_DEADLOCK FALSE
