SPECIFICATION MSpec
CONSTANTS
  InitSync <- InitNoLimit
  Conns = {1,2,3}
  Devs = {1}
  Xs = {101}
  Sessions = {}
  SMsgs <- JustData
  AMsgs <- SrqMsgs
  NMsgs <- NewMsgs
  NS = 0
  NA = 1
  Envs <- EShut
  NE = 1
  Resps <- OneResp
  Limit = 1
  MaxM = 2

INVARIANTS LimitHolds
PROPERTIES OnlyEntitled
CHECK_DEADLOCK FALSE
