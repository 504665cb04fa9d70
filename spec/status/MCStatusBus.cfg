SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Subs = {1, 2}
  Room = 1
  MaxPub = 3
INVARIANTS InOrder NotOld
PROPERTIES Delivered OnlyOwn
CHECK_DEADLOCK FALSE
