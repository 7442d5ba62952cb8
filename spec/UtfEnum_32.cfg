SPECIFICATION Spec
INVARIANT UInv
CHECK_DEADLOCK FALSE
CONSTANTS
  W = 1
  MAXLEN = 3
  UNITS = {0, 65, 233, 55295, 57344, 128512, 1114111}
