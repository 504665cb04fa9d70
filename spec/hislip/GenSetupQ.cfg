SPECIFICATION GSpec
CONSTANTS
  Conns = {1,2,3}
  Devs = {1}
  Xs = {101}
  Sessions = {}
  SMsgs <- JustData
  AMsgs <- SrqMsgs
  NMsgs <- NewMsgs
  NS = 0
  NA = 1
  Envs <- EShut
  NE = 0
  Resps <- OneResp
  Limit = 1
  MaxM = 2
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
