SPECIFICATION Spec
CONSTANTS DEEP = 0
INVARIANT EInv
CHECK_DEADLOCK FALSE
