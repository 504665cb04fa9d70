SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2,3}
  Devs = {1}
  Chans = {1}
  Cores = {1,2}
  Aborts = {3}
  Linked = {1}
  Menu <- LinkMenu
  NC = 2
  NA = 1
  Pipe = 1
  Envs <- ELeave
  NE = 1
  Resps <- OneResp
  MaxAb <- MaxOne
INVARIANTS Sane Replies BytesOnce NotTooMany RestIsQuiet FreeIsDone
PROPERTIES LinkTruth NewIsNew NoLinkNoLock GoneForGood OnlyEntitled LockTruth OthersKeep FailsIdle DeniedTruly Reasons AbortOnly AbortHere StatusTruth OnlyAsked
CHECK_DEADLOCK FALSE
