SPECIFICATION GSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Chans = {1}
  Cores = {1,2}
  Aborts = {}
  Linked = {1,2}
  Menu <- RpcMenu
  NC = 2
  NA = 0
  Pipe = 2
  Envs <- ELeave
  NE = 1
  Resps <- OneResp
  MaxAb <- MaxOne
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
