SPECIFICATION MSpec
CONSTANTS
  Conns = {1}
  Devs = {1}
  Chans = {1}
  Cores = {1}
  Aborts = {}
  Linked = {1}
  Menu <- SrqMenu
  NC = 4
  NA = 0
  Pipe = 1
  Envs <- EPub
  NE = 2
  Resps <- OneResp
  MaxAb <- MaxOne
  Notify <- NotifyAlways
INVARIANTS NotTooMany
CHECK_DEADLOCK FALSE
