SPECIFICATION MSpec
CONSTANTS
  Conns = {1}
  Devs = {1}
  Chans = {1}
  Cores = {1}
  Aborts = {}
  Linked = {1}
  Menu <- DataMenu
  NC = 6
  NA = 0
  Pipe = 2
  Envs <- None
  NE = 0
  Resps <- TwoResps
  MaxAb <- MaxOne
INVARIANTS Sane Replies BytesOnce NotTooMany RestIsQuiet FreeIsDone
PROPERTIES LinkTruth NewIsNew NoLinkNoLock GoneForGood OnlyEntitled LockTruth OthersKeep FailsIdle DeniedTruly Reasons AbortOnly AbortHere StatusTruth OnlyAsked
CHECK_DEADLOCK FALSE
