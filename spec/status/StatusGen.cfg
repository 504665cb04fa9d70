SPECIFICATION GSpec
CONSTANTS
  Procs = {1, 2}
  Subs = {1, 2, 3}
  Room = 2
  MaxPub = 2
VIEW V
CONSTRAINT Small
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
