SPECIFICATION Spec
CONSTANTS L = 3
 K = 4
 Sym = {0, 4, 6}
INVARIANT EInv
CHECK_DEADLOCK FALSE
