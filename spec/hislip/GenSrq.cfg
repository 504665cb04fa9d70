SPECIFICATION GSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Xs = {101}
  Sessions = {1}
  SMsgs <- JustData
  AMsgs <- SrqMsgs
  NMsgs <- None
  NS = 0
  NA = 2
  Envs <- EPub
  NE = 3
  Resps <- OneResp
  Limit = 4
  MaxM = 2
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
