SPECIFICATION GSpec
CONSTANTS
  Conns = {1}
  Devs = {1}
  Chans = {1}
  Cores = {1}
  Aborts = {}
  Linked = {1}
  Menu <- DataMenu
  NC = 4
  NA = 0
  Pipe = 2
  Envs <- None
  NE = 0
  Resps <- TwoResps
  MaxAb <- MaxOne
VIEW GView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
