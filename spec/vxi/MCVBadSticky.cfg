SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2,3}
  Devs = {1}
  Chans = {1}
  Cores = {1,2}
  Aborts = {3}
  Linked = {1,2}
  Menu <- AbortMenu
  NC = 2
  NA = 2
  Pipe = 2
  Envs <- EExt
  NE = 1
  Resps <- OneResp
  MaxAb <- MaxOne
  Fin <- FinSticky
PROPERTIES AbortOnly
CHECK_DEADLOCK FALSE
