SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2,3}
  Devs = {1}
  Xs = {101}
  Sessions = {}
  SMsgs <- JustData
  AMsgs <- SrqMsgs
  NMsgs <- NewMsgs
  NS = 0
  NA = 1
  Envs <- EShut
  NE = 1
  Resps <- OneResp
  Limit = 1
  MaxM = 2

INVARIANTS LocksSane UniqueIds LimitHolds OneAsync LocksOfLive IdsGiven AttachOnce NoRunBeforeAttach RestIsQuiet
PROPERTIES OnlyEntitled
CHECK_DEADLOCK FALSE
