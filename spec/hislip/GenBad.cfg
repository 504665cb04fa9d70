SPECIFICATION GSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Xs = {101}
  Sessions = {1}
  SMsgs <- BadData
  AMsgs <- BadAsync
  NMsgs <- None
  NS = 2
  NA = 1
  Envs <- EShut
  NE = 1
  Resps <- OneResp
  Limit = 4
  MaxM = 2
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
