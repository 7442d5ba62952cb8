SPECIFICATION Spec
CONSTANTS DEEP = 1
INVARIANT EInv
CHECK_DEADLOCK FALSE
