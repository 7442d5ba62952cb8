SPECIFICATION Spec
CONSTANTS K = 3
 G = 0
 PART = "v"
 VALS = {1, 2}
 KEYS = {1,3,5}
INVARIANT EInv
CHECK_DEADLOCK FALSE
