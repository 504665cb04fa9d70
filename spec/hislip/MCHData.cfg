SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2}
  Devs = {1}
  Xs = {101}
  Sessions = {1}
  SMsgs <- DataMsgs
  AMsgs <- Clears
  NMsgs <- None
  NS = 3
  NA = 1
  Envs <- EHold
  NE = 2
  Resps <- TwoResps
  Limit = 4
  MaxM = 2

INVARIANTS LocksSane UniqueIds LimitHolds OneAsync LocksOfLive RunInOrder RunWhole AckBounded OneAnswer RestIsQuiet FreeIsDone
PROPERTIES ClearDiscards FreshAfterAck OnlyEntitled
CHECK_DEADLOCK FALSE
