SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Xs = {101}
  Sessions = {1}
  SMsgs <- DataClear
  AMsgs <- Clears
  NMsgs <- None
  NS = 4
  NA = 2
  Envs <- None
  NE = 0
  Resps <- OneResp
  Limit = 4
  MaxM = 2

INVARIANTS LocksSane UniqueIds LimitHolds OneAsync LocksOfLive RunInOrder RunWhole AckBounded OneAnswer RestIsQuiet FreeIsDone
PROPERTIES ClearDiscards FreshAfterAck OnlyEntitled
CHECK_DEADLOCK FALSE
