SPECIFICATION Spec
INVARIANT EInv
CHECK_DEADLOCK FALSE
CONSTANTS
  BITS = {{}, {1}, {2}, {3}, {4}, {1, 3}, {1, 2, 3, 4}}
  FS = {0, 1, 2, 3, 4, 5, 6, 7, 8}
  GS = {0, 1, 8}
