SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Xs = {101}
  Sessions = {1}
  SMsgs <- BadData
  AMsgs <- BadAsync
  NMsgs <- None
  NS = 2
  NA = 1
  Envs <- EShut
  NE = 1
  Resps <- OneResp
  Limit = 4
  MaxM = 2

INVARIANTS LocksSane UniqueIds LimitHolds OneAsync LocksOfLive RunInOrder RunWhole OnlyRegular RestIsQuiet 
PROPERTIES SkippedWhole BadEnds
CHECK_DEADLOCK FALSE
