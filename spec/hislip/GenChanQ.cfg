SPECIFICATION GSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Xs = {101}
  Sessions = {1}
  SMsgs <- DataClear
  AMsgs <- ChanMsgs
  NMsgs <- None
  NS = 1
  NA = 2
  Envs <- EExt
  NE = 1
  Resps <- OneResp
  Limit = 4
  MaxM = 2
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
