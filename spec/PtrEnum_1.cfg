SPECIFICATION Spec
CONSTANTS NS = 3
 M = 3
 Z = 1
 DELS = {0}
INVARIANT EInv
PROPERTY Once
CHECK_DEADLOCK FALSE
