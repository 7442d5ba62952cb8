SPECIFICATION Spec
CONSTANTS K = 2
 G = 0
 PART = "m"
 VALS = {1, 2}
 KEYS = {1,3,5}
INVARIANT EInv
CHECK_DEADLOCK FALSE
