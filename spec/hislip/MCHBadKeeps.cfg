SPECIFICATION MSpec
CONSTANTS
  Enter <- EnterKeeps
  Conns = {1,2}
  Devs = {1}
  Xs = {101}
  Sessions = {1}
  SMsgs <- DataClear
  AMsgs <- Clears
  NMsgs <- None
  NS = 4
  NA = 2
  Envs <- None
  NE = 0
  Resps <- OneResp
  Limit = 4
  MaxM = 2

INVARIANTS LocksSane
PROPERTIES FreshAfterAck
CHECK_DEADLOCK FALSE
