SPECIFICATION Spec
INVARIANT UInv
CHECK_DEADLOCK FALSE
CONSTANTS
  W = 2
  MAXLEN = 5
  UNITS = {0, 65, 55295, 55296, 56319, 56320, 57343, 57344}
