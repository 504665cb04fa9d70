SPECIFICATION MSpec
CONSTANTS
  Conns = {1,2,3}
  Devs = {1}
  Chans = {1}
  Cores = {1,2}
  Aborts = {3}
  Linked = {1,2}
  Menu <- AbortMenuQ
  NC = 1
  NA = 2
  Pipe = 1
  Envs <- EExt
  NE = 2
  Resps <- OneResp
  MaxAb <- MaxOne
INVARIANTS Sane Replies BytesOnce NotTooMany RestIsQuiet FreeIsDone
PROPERTIES LinkTruth NewIsNew NoLinkNoLock GoneForGood OnlyEntitled LockTruth OthersKeep FailsIdle DeniedTruly Reasons AbortOnly AbortHere StatusTruth OnlyAsked
CHECK_DEADLOCK FALSE
