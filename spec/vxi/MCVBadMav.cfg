SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Chans = {1}
  Cores = {1,2}
  Aborts = {}
  Linked = {1,2}
  Menu <- StbMenu
  NC = 2
  NA = 0
  Pipe = 1
  Envs <- EHX
  NE = 1
  Resps <- TwoResps
  MaxAb <- MaxOne
  Mav <- MavOr
PROPERTIES StatusTruth
CHECK_DEADLOCK FALSE
