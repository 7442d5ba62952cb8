SPECIFICATION Spec
INVARIANT UInv
CHECK_DEADLOCK FALSE
CONSTANTS
  W = 0
  MAXLEN = 4
  UNITS = {0, 65, 127, 128, 191, 194, 223, 224, 237, 239, 240, 244, 247, 248, 144}
