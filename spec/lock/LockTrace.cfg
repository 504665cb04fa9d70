SPECIFICATION TSpec
CONSTANTS
  Procs = {1, 2, 3, 4}
  Handles = {1, 2, 3, 4}
  Keys = {1, 2, 3}
INVARIANTS TypeOK Exclusive OneKey DeadHoldNothing
CONSTRAINT Note
POSTCONDITION Report
CHECK_DEADLOCK FALSE
