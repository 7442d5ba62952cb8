SPECIFICATION Spec
CONSTANTS L = 2
 DEEP = 1
INVARIANT EInv
CHECK_DEADLOCK FALSE
