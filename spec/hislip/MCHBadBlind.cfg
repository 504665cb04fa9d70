SPECIFICATION MSpec
CONSTANTS
  Grant <- GrantBlind
  Conns = {1,2,3,4}
  Devs = {1}
  Xs = {101}
  Sessions = {1,3}
  SMsgs <- JustData
  AMsgs <- LockFew
  NMsgs <- None
  NS = 0
  NA = 2
  Envs <- EExt
  NE = 0
  Resps <- OneResp
  Limit = 4
  MaxM = 2

INVARIANTS LocksSane
PROPERTIES LockTruth
CHECK_DEADLOCK FALSE
