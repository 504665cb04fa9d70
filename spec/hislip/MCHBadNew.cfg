SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Xs = {101}
  Sessions = {}
  SMsgs <- BadData
  AMsgs <- BadAsync
  NMsgs <- BadNew
  NS = 0
  NA = 2
  Envs <- EShut
  NE = 1
  Resps <- OneResp
  Limit = 4
  MaxM = 2

INVARIANTS LocksSane UniqueIds LimitHolds OneAsync LocksOfLive RunInOrder RunWhole OnlyRegular RestIsQuiet 
PROPERTIES SkippedWhole BadEnds OthersServed
CHECK_DEADLOCK FALSE
