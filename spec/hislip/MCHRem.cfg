SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Xs = {101}
  Sessions = {1}
  SMsgs <- JustData
  AMsgs <- RemMsgs
  NMsgs <- None
  NS = 1
  NA = 2
  Envs <- EHX
  NE = 2
  Resps <- OneResp
  Limit = 4
  MaxM = 2

INVARIANTS LocksSane UniqueIds LimitHolds OneAsync LocksOfLive OneAnswer RestIsQuiet FreeIsDone
PROPERTIES RemoteDone
CHECK_DEADLOCK FALSE
