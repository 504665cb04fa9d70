SPECIFICATION GSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Xs = {101}
  Sessions = {1}
  SMsgs <- DataMsgs
  AMsgs <- Clears
  NMsgs <- None
  NS = 3
  NA = 1
  Envs <- None
  NE = 0
  Resps <- OneResp
  Limit = 4
  MaxM = 2
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
