SPECIFICATION Spec
INVARIANT EInv
PROPERTY Kept
CHECK_DEADLOCK FALSE
CONSTANTS
 NS = 2
 KINDS = {"int", "sv", "so", "soo", "big", "bigi"}
 VALS = {1, 2}
