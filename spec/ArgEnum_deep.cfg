SPECIFICATION Spec
INVARIANT EInv
PROPERTY Kept
CHECK_DEADLOCK FALSE
CONSTANTS
 NS = 3
 KINDS = {"int", "sv", "so", "soo", "big", "bigi", "thri"}
 VALS = {1}
