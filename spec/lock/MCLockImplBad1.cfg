SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Keys = {1}
  Recheck = FALSE
  CheckAgain = TRUE
  NotifyRelease = TRUE
INVARIANTS NoLostWakeup Bounded
PROPERTIES Refines GrantSafe 
CHECK_DEADLOCK FALSE
