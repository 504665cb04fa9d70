SPECIFICATION GSpec
CONSTANTS
  Procs = {1, 2}
  Handles = {1, 2}
  Keys = {1, 2}
  HandleOf <- H1
VIEW V
ACTION_CONSTRAINT Edge
INVARIANTS TypeOK Exclusive OneKey DeadHoldNothing
CHECK_DEADLOCK FALSE
