SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Xs = {101}
  Sessions = {1}
  SMsgs <- DataClear
  AMsgs <- ChanMsgs
  NMsgs <- None
  NS = 2
  NA = 2
  Envs <- EHX
  NE = 2
  Resps <- OneResp
  Limit = 4
  MaxM = 2

INVARIANTS LocksSane UniqueIds LimitHolds OneAsync LocksOfLive OneAnswer RestIsQuiet FreeIsDone RunInOrder AckBounded
PROPERTIES LockTruth OnlyEntitled RemoteDone
CHECK_DEADLOCK FALSE
