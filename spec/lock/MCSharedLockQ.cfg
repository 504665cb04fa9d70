SPECIFICATION MCSpec
CONSTANTS
  Procs = {1, 2}
  Handles = {1, 2}
  Keys = {1, 2}
INVARIANTS TypeOK Exclusive OneKey DeadHoldNothing
PROPERTIES KeyStable RefusalKeeps SuccessHolds GrantSafe OwnLocksOnly ReleaseComplete CancelKeeps
CHECK_DEADLOCK FALSE
