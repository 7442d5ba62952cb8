SPECIFICATION Spec
CONSTANTS NS = 2
 M = 3
 Z = 0
 DELS = {0, 1}
INVARIANT EInv
PROPERTY Once
CHECK_DEADLOCK FALSE
