SPECIFICATION Spec
CONSTANTS L = 3
 K = 4
 Sym = {0, 2, 4, 6, 7}
INVARIANT EInv
CHECK_DEADLOCK FALSE
