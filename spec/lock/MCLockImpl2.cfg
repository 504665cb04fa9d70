SPECIFICATION FairSpec
CONSTANTS
  Procs = {1, 2}
  Keys = {1, 2}
  Recheck = TRUE
  CheckAgain = TRUE
  NotifyRelease = TRUE
INVARIANTS NoLostWakeup Bounded
PROPERTIES Refines GrantSafe Progress
CHECK_DEADLOCK FALSE
