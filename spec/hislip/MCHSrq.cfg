SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Xs = {101}
  Sessions = {1}
  SMsgs <- JustData
  AMsgs <- SrqMsgs
  NMsgs <- None
  NS = 1
  NA = 2
  Envs <- EPub
  NE = 3
  Resps <- OneResp
  Limit = 4
  MaxM = 2

INVARIANTS LocksSane UniqueIds LimitHolds OneAsync LocksOfLive OneAnswer RestIsQuiet OneSrq SrqNotLost
PROPERTIES OnlyEntitled
CHECK_DEADLOCK FALSE
