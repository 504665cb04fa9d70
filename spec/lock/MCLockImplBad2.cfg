SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Keys = {1}
  Recheck = TRUE
  CheckAgain = FALSE
  NotifyRelease = TRUE
INVARIANTS NoLostWakeup Bounded
PROPERTIES Refines GrantSafe 
CHECK_DEADLOCK FALSE
