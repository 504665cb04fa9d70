SPECIFICATION GSpec
CONSTANTS
  Procs = {1, 2, 3}
  Handles = {1, 2, 3}
  Keys = {1, 2}
  HandleOf <- H2
VIEW V
ACTION_CONSTRAINT Edge
INVARIANTS TypeOK Exclusive OneKey DeadHoldNothing
CHECK_DEADLOCK FALSE
