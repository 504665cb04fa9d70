SPECIFICATION GSpec
CONSTANTS
  Procs = {1, 2, 3}
  Handles = {1, 2}
  Keys = {1, 2}
  HandleOf <- H3
VIEW V
ACTION_CONSTRAINT Edge
INVARIANTS TypeOK Exclusive OneKey DeadHoldNothing
CHECK_DEADLOCK FALSE
