SPECIFICATION FairSpec
CONSTANTS
  Procs = {1, 2}
  Subs = {1}
  Room = 1
  MaxPub = 2
INVARIANTS InOrder NotOld
PROPERTIES Delivered OnlyOwn NonBlocking Woken
CHECK_DEADLOCK FALSE
