SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2,3}
  Devs = {1}
  Chans = {1}
  Cores = {1,2}
  Aborts = {3}
  Linked = {1}
  Menu <- LinkMenuQ
  NC = 1
  NA = 1
  Pipe = 1
  Envs <- ELeave
  NE = 1
  Resps <- OneResp
  MaxAb <- MaxOne
  Mine <- MineAny
PROPERTIES LinkTruth
CHECK_DEADLOCK FALSE
