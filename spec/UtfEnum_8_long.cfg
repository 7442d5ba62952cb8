SPECIFICATION Spec
INVARIANT UInv
CHECK_DEADLOCK FALSE
CONSTANTS
  W = 0
  MAXLEN = 7
  UNITS = {65, 169, 195, 226, 240}
