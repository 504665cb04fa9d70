SPECIFICATION GSpec
CONSTANTS
  Conns = {1,2,3,4}
  Devs = {1}
  Xs = {101}
  Sessions = {1,3}
  SMsgs <- JustData
  AMsgs <- LockFew
  NMsgs <- None
  NS = 0
  NA = 2
  Envs <- EExt
  NE = 1
  Resps <- OneResp
  Limit = 4
  MaxM = 2
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
