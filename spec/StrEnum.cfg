SPECIFICATION Spec
CONSTANTS L = 2
 DEEP = 0
INVARIANT EInv
CHECK_DEADLOCK FALSE
