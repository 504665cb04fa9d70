SPECIFICATION GSpec
CONSTANTS
  Conns = {1}
  Devs = {1}
  Chans = {1}
  Cores = {1}
  Aborts = {}
  Linked = {1}
  Menu <- SrqMenu
  NC = 4
  NA = 0
  Pipe = 1
  Envs <- EPub
  NE = 2
  Resps <- OneResp
  MaxAb <- MaxOne
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
